"""Which contracts, extraction units and executable contracts decide each property."""
CPU_RE = ('knp::backends::cpu::(populations|projections)::[a-z_]*,'
          'knp::core::(Projection|Population|MessageEndpoint|Subscription|MessageBus)::.*,'
          'knp::core::messaging::impl::(MessageBusCPUImpl|MessageEndpointCPUImpl)::.*')
ST_RE = ('knp::backends::single_threaded_cpu::.*,knp::backends::cpu::[a-z_]*(::subscribe)?,knp::core::Backend::.*,knp::core::MessageEndpoint::.*,'
         'knp::core::(Projection|Population)::.*,knp::meta::.*')
MT_RE = ('knp::backends::multi_threaded_cpu::.*,knp::backends::cpu_executors::.*,knp::backends::cpu::.*,knp::core::Backend::.*,'
         'knp::core::MessageEndpoint::.*,knp::core::(Projection|Population)::.*,knp::meta::.*')
BASE_RE = 'knp::framework::.*'
UNITS = {
    'dev': dict(root='kvc_root_dev.cpp', regex='knp::core::(Backend|Device)::.*,knp::devices::.*'),
    'watch': dict(root='kvc_root_watch.cpp', regex=BASE_RE),
    'check': dict(root='kvc_root_check.cpp', regex=BASE_RE),
    'make': dict(root='kvc_root_make.cpp', regex=BASE_RE),
    'eval': dict(root='kvc_root_eval.cpp', regex=BASE_RE),
    'wire': dict(root='kvc_root_wire.cpp', regex='knp::core::.*'),
    'text': dict(root='kvc_root_text.cpp', regex='knp::core::.*'),
    'io': dict(root='kvc_root_io.cpp', regex='knp::framework::io::.*'),
    'base': dict(root='kvc_root_base.cpp', regex=BASE_RE),
    'mt': dict(root='kvc_root_mt.cpp', regex=MT_RE),
    'st': dict(root='kvc_root_st.cpp', regex=ST_RE),
    'cpu': dict(root='kvc_root_cpu.cpp', regex=CPU_RE),
}
GROUPS = {
    'core': dict(src=['core-library/impl/**/*.cpp']),
    'cpu': dict(src=['backends/cpu/cpu-devices/impl/unknown_cpu.cpp', 'backends/cpu/thread_pool/impl/*.cpp',
                     'backends/cpu/cpu-single-threaded-backend/impl/*.cpp', 'backends/cpu/cpu-multi-threaded-backend/impl/*.cpp']),
    'base': dict(src=['base-framework/impl/*.cpp', 'base-framework/impl/data_processing/classification/*.cpp',
                      'base-framework/impl/inference_evaluation/**/*.cpp', 'base-framework/impl/monitoring/*.cpp',
                      'base-framework/impl/network_validation/**/*.cpp', 'base-framework/impl/projection/*.cpp']),
}
PROPS = {
    'M04': dict(module='texts', fn='m04', units=['text'], harness='texts', groups=['core']),
    'M03': dict(module='wire', fn='m03', units=['wire'], harness='wire', groups=['core']),
    'F01': dict(module='framework', fn='f01', units=['base'], harness='framework', groups=['core', 'base']),
    'F02': dict(module='creators', fn='f02', units=['make'], harness='framework', groups=['core', 'base']),
    'F03': dict(module='execution', fn='f03', units=['base'], harness='execution', groups=['core', 'base', 'cpu']),
    'F04': dict(module='execution', fn='f04', units=['base'], harness='execution', groups=['core', 'base', 'cpu']),
    'F07': dict(module='datasets', fn='f07', units=['eval'], harness='datasets', groups=['core', 'base']),
    'F08': dict(module='datasets', fn='f08', units=['eval'], harness='datasets', groups=['core', 'base']),
    'F09': dict(module='normalizing', fn='f09', units=['eval'], harness='normalizing', groups=['core', 'base']),
    'F10': dict(module='validation', fn='f10', units=['check'], harness='validation', groups=['core', 'base']),
    'F11': dict(module='monitor', fn='f11', units=['watch'], harness='monitoring', groups=['core', 'base', 'cpu']),
    'B05': dict(module='devices', fn='b05', units=['dev', 'st', 'mt'], harness='devices', groups=['core', 'cpu']),
    'F06': dict(module='converters', fn='f06', units=['io'], harness='converters', groups=['core', 'base']),
    'F05': dict(module='handlers', fn='f05', units=['base'], harness='handlers', groups=['core', 'base', 'cpu']),
    'B01': dict(module='backend', fn='b01', units=['st'], harness='backend', groups=['core', 'cpu']),
    'B02': dict(module='backend', fn='b02', units=['st'], harness='backend', groups=['core', 'cpu']),
    'B03': dict(module='loading', fn='b03', units=['st', 'mt'], harness='backend', groups=['core', 'cpu']),
    'B04': dict(module='parallel', fn='b04', units=['mt'], harness='backend', groups=['core', 'cpu']),
    'T01': dict(module='threads', fn='t01', units=['mt'], harness='threads', groups=['cpu', 'core']),
    'M01': dict(module='messaging', fn='m01', units=['cpu'], harness='messaging'),
    'M02': dict(module='messaging', fn='m02', units=['cpu'], harness='messaging'),
    'N01': dict(module='neurons', fn='n01', units=['cpu'], harness='neurons'),
    'N02': dict(module='neurons', fn='n02', units=['cpu'], harness='neurons'),
    'N03': dict(module='neurons', fn='n03', units=['cpu'], harness='neurons'),
    'P01': dict(module='containers', fn='p01', units=['cpu'], harness='projections'),
    'P02': dict(module='containers', fn='p02', units=['cpu'], harness='neurons'),
    'S02': dict(module='training', fn='s02', units=['cpu'], harness='training'),
    'S03': dict(module='projections', fn='s03', units=['cpu'], harness='projections'),
    'S01': dict(module='projections', fn='s01', units=['cpu'], harness='projections'),
}
