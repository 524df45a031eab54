"""Per-property configuration: which explorers decide it and within what bounds."""
CHECKS = {
 'P01': dict(explorers=[dict(src=['p01.c'])]),
 'P02': dict(explorers=[dict(src=['p02.c'])]),
 'P04': dict(explorers=[dict(src=['p04.c'], cpu_limit=dict(quick=120,thorough=3000))]),
 'P07': dict(explorers=[dict(src=['p07.c'])]),
 'P06': dict(explorers=[dict(src=['p06.c'])]),
 'P08': dict(explorers=[dict(src=['p08.c'])]),
 'P05': dict(explorers=[dict(src=['p05.c'])]),
 'P09': dict(explorers=[dict(src=['p09.c'])]),
 'P10': dict(explorers=[dict(src=['p10.c'])]),
 'P11': dict(explorers=[dict(src=['p11.c'])]),
 'P12': dict(explorers=[dict(src=['p12.c'])]),
 'P13': dict(explorers=[dict(src=['p13.c'])]),
 'P14': dict(explorers=[dict(src=['p14.c'])]),
 'P15': dict(explorers=[dict(src=['p15.c'])]),
 'P16': dict(explorers=[dict(src=['p16.c'])]),
 'P18': dict(explorers=[dict(src=['p18.c'])]),
 'P22': dict(explorers=[dict(src=['p22.c'])]),
 'P19': dict(explorers=[dict(src=['p19.c'])]),
 'P17': dict(explorers=[dict(src=['p17.c'])]),
 'P20': dict(explorers=[dict(src=['p20.c']), dict(src=['p20.c'], flavor='asan', cflags=['-DMEM_TAIL=0'])]),
 'P03': dict(explorers=[dict(src=['p03.c'])]),
 'P24': dict(explorers=[dict(src=['p24.c'])]),
 'P21': dict(explorers=[dict(src=['p21.c'])]), 
 'P27': dict(explorers=[dict(src=['p27.c'], flavor='wipe', cflags=['-Dmalloc=__real_malloc', '-Dfree=__real_free', '-Drealloc=__real_realloc', '-Dcalloc=__real_calloc', '-Dstrdup=__real_strdup', '-DMEM_TAIL=0', '-DMEM_PASSIVE'], ldflags=['-Wl,--wrap=malloc,--wrap=free,--wrap=realloc,--wrap=calloc,--wrap=strdup']), dict(src=['p27.c'], cflags=['-Dmalloc=__real_malloc', '-Dfree=__real_free', '-Drealloc=__real_realloc', '-Dcalloc=__real_calloc', '-Dstrdup=__real_strdup', '-DMEM_TAIL=0'], ldflags=['-Wl,--wrap=malloc,--wrap=free,--wrap=realloc,--wrap=calloc,--wrap=strdup'])]),
 'P25': dict(explorers=[dict(src=['p25.c'], calculator=True)]),
 'P28': dict(explorers=[dict(src=['p28.c'])]),
 'P23': dict(explorers=[dict(src=['p23.cc'])]),
 'P29': dict(explorers=[dict(src=['p29.c'])]),
 'P30': dict(explorers=[dict(src=['p30.c'], flavor='debug')]),
 'P26': dict(explorers=[dict(src=['p26.c'])]),
 'P31': dict(explorers=[dict(src=['p31.c'], tool='gen/%s.c' % t, cflags=['-DTOOL=%d' % (i + 1)]) for i, t in enumerate(('genaparam', 'gena1param', 'gendparam', 'geneparam', 'genfparam', 'gengparam', 'listmnt', 'listfreeman', 'hilbertpoly'))]),
}
