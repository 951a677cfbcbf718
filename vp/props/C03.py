"""C03: the compiled code stays inside of its arrays and uses no value that was never set."""
from .. import misc_c as M
from .. import recon_c as R

ORACLE_S = 50
ASAN = True
CMAKE = ('-DCMAKE_C_FLAGS=-fsanitize=address -fno-omit-frame-pointer -g',)
ORACLE_WHAT = ('every native entry point, through the public functions, with the libraries rebuilt with AddressSanitizer and freshly allocated memory '
               'filled with NaN; gridrec.c and remove_ring.c, which are not under contract, are covered by this alone')
FUNCS = ['art', 'bart', 'fbp', 'grad', 'osem', 'ospml_hybrid', 'ospml_quad', 'tikh', 'tv', 'project', 'project2', 'project3', 'vector', 'vector2', 'vector3']
UTIL = ['preprocessing', 'calc_coords', 'trim_coords', 'sort_intersections', 'calc_dist', 'calc_dist2', 'calc_simdata', 'calc_simdata2', 'calc_simdata3']
COST = {'ospml_hybrid': 8, 'ospml_quad': 8, 'tv': 7, 'tikh': 6, 'grad': 6, 'vector3': 7, 'vector2': 6, 'median_rand_inpainting_3D': 40,
        'eucl_weighting_inpainting_3D': 30, 'Inpainter_morph_main': 25, 'medfilt3D_float': 20, 'medfilt3D_uint16': 20}
UNITS = {f: R.unit(f, ['mem', 'init']) for f in UTIL + FUNCS}
UNITS.update({f: M.unit(f, ['mem', 'init', 'race']) for f in M.FILES})
