// reference counting of types, callables and memory blocks is not the subject here: objects stay alive
#pragma once
#ifndef VP_REPLAY
extern "C" void __vp_stub__ZN4dynd3ndt20intrusive_ptr_retainEPKNS0_9base_typeE(void *) {}
extern "C" void __vp_stub__ZN4dynd3ndt21intrusive_ptr_releaseEPKNS0_9base_typeE(void *) {}
extern "C" void __vp_stub__ZN4dynd2nd20intrusive_ptr_retainEPNS0_13base_callableE(void *) {}
extern "C" void __vp_stub__ZN4dynd2nd21intrusive_ptr_releaseEPNS0_13base_callableE(void *) {}
extern "C" void __vp_stub__ZN4dynd2nd20intrusive_ptr_retainEPKNS0_19buffer_memory_blockE(void *) {}
extern "C" void __vp_stub__ZN4dynd2nd21intrusive_ptr_releaseEPKNS0_19buffer_memory_blockE(void *) {}
#endif
