PROPS = {}
_ct = ['b1','i8','i16','i32','i64','u8','u16','u32','u64','f32','f64','cf','cd']
PROPS['C01'] = dict(tus=[dict(src='conv.cpp', prefix='h_', tag='conv_'+a, defs=['DST1='+a]) for a in _ct], min_harnesses=169, level='proof')
_r128 = ['src/dynd/int128.cpp', 'src/dynd/uint128.cpp']
PROPS['C02'] = dict(tus=[dict(src='conv128.cpp', prefix='h_', tag=k+a, defs=[k+'='+a], repo=_r128) for k in ('TO','FROM') for a in ('i128','u128')]
    + [dict(src='int128.cpp', prefix='g_', repo=_r128)], min_harnesses=50,
    assumptions=['schoolbook long division in base 2^32 computes the 128-bit quotient and remainder (textbook lemma, not machine-checked)', 'fmod(x, 2^64) is computed exactly (IEEE-754 fmod is exact)'], level='proof')
PROPS['C03'] = dict(tus=[dict(src='transcode.cpp', prefix='t_', repo=['src/dynd/string_encodings.cpp']), dict(src='enc.cpp', prefix='h_', repo=['src/dynd/string_encodings.cpp'])], min_harnesses=48, level='proof')
PROPS['C04'] = dict(tus=[dict(src='bytestr.cpp', prefix='s_', tag=t, defs=['NUL='+n]) for t, n in (('string','1'),('bytes','0'))], min_harnesses=108, level='proof')
PROPS['C05'] = dict(tus=[dict(src='index.cpp', prefix='x_', repo=['src/dynd/shape_tools.cpp']), dict(src='index_nested.cpp', prefix='x_', repo=['src/dynd/types/fixed_dim_type.cpp'])], min_harnesses=10, level='proof')
PROPS['C06'] = dict(tus=[dict(src='elwise.cpp', prefix='e_'), dict(src='elwise.cpp', prefix='e_', tag='elwise_loops', defs=['LOOPS']), dict(src='elwise_resolve.cpp', prefix='r_', tag='resolve', defs=['ONE'], repo=['src/dynd/type.cpp']), dict(src='elwise_resolve.cpp', prefix='r_', tag='entry', defs=['ENTRY']), dict(src='elwise_resolve.cpp', prefix='r_', tag='dispatch', defs=['DISPATCH'])], min_harnesses=33, level='proof')
_ar = ['i8','i16','i32','i64','u8','u16','u32','u64']
PROPS['C07'] = dict(tus=[dict(src='arith.cpp', prefix='a_', tag='arith_'+a, defs=['INTS='+a]) for a in _ar] + [dict(src='arith.cpp', prefix='a_', tag='arith_b1', defs=['INTS=b1', 'BOOL'])] + [dict(src='arith.cpp', prefix='a_', tag='arith_'+a, defs=['REALS='+a]) for a in ('f32','f64')] + [dict(src='arith.cpp', prefix='a_', tag='rel_'+a, defs=['COMPARE='+a]) for a in ['b']+_ar+['f32','f64']] + [dict(src='arith.cpp', prefix='a_', tag='tuples', defs=['TUPLES']), dict(src='tuple_cmp.cpp', prefix='t_', defs=['NF=2'], repo=['src/dynd/types/struct_type.cpp'])], min_harnesses=340, level='proof')
