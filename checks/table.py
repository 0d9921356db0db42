# which sources make up each check
reg('C02', ['c02_pairs.cpp'])
reg('C01', ['c01_hist.cpp'])
reg('C04', ['c04_queries.cpp'])
reg('C23', ['c23_ranges.cpp'])
reg('C03', ['c03_many.cpp'])
reg('C05', ['c05_iter.cpp'])
reg('C06', ['c06_serial.cpp'])
reg('C07', ['c07_format.cpp'])
reg('C08', ['c08_untrusted.cpp'])
reg('C15', ['c15_hist64.cpp'])
reg('C16', ['c16_pairs64.cpp'])
reg('C17', ['c17_query64.cpp'])
reg('C18', ['c18_serial64.cpp'])
reg('C19', ['c19_keytree.cpp'])
reg('C09', ['c09_cow.cpp'])
reg('C10', ['c10_threads.cpp'], cfg='sched', hooks='sched.cpp', cflags=['-fno-inline'])
reg('C11', ['c11_valid.cpp'])
reg('C20', ['c20_bitset.cpp'], asan_harness=True)
reg('C12', [], custom='build_c12')
reg('C25', ['c25_bulk.cpp'])
reg('C24', ['c24_reencode.cpp'])
reg('C26', ['c26_operands.cpp'])
reg('C21', ['c21_cpp32.cpp'], asan_harness=True)
reg('C22', ['c22_cppmap.cpp'], asan_harness=True)
reg('C13', ['c13_memory.cpp'])
reg('C14', ['c14_alloc.cpp'])
reg('C27', ['c27_convert.cpp'], asan_harness=True)
