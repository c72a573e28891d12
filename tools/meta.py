"""Writes properties.jsonl and MANIFEST.json.  Properties whose check module is missing are not claimed."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SOLVER = ['meent/on_numpy/emsolver', 'meent/on_jax/emsolver', 'meent/on_torch/emsolver']


def f(*names):
    """the same file in each backend"""
    return [f'meent/on_{b}/emsolver/{n}.py' for b in ('numpy', 'jax', 'torch') for n in names]


P = []


def prop(id, title, statement, over, quant, why, files, mech, observe, method, note=''):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant),
                   why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                                observe_at=observe, hook_needed=None)), method, note))


SOLVE = ['conv_solve() result: res, res_te_inc, res_tm_inc and their de_*/R_*/T_* arrays']

prop('P01', 'Lossless structures conserve energy',
     'For a structure whose layers, superstrate and substrate are all lossless, the reflected and transmitted '
     'diffraction efficiencies over all orders sum to 1, for the requested polarisation and for the TE and TM '
     'incidences reported next to it, on every backend, solver dimension and Fourier-series type. Every efficiency is '
     'real, finite, non-negative, has one entry per Fourier order, splits exactly into its s and p parts, and is zero '
     'for an order that cannot propagate.',
     ['inputs', 'configurations'],
     'every lossless raster or vector cell, stack height, angle, polarisation, period, wavelength, Fourier order, '
     'backend and Fourier-series setting (orders at cutoff excepted)',
     'The tests run a dozen fixed structures and mostly check that nothing raises; conservation must hold for every '
     'structure, and a wrong factor on one order, angle or branch is invisible to them.',
     f('rcwa', 'transfer_method', 'convolution_matrix'),
     [('efficiencies from amplitudes', 'transfer_method.py: transfer_1d_4, transfer_2d_4'),
      ('layer eigenproblems', 'rcwa.py: solve_1d, solve_1d_conical, solve_2d')],
     SOLVE, 'generated structures against the exact conservation law (invariant)')

prop('P02', 'Absorbing structures are passive and attenuate at the physical rate',
     'With absorbing layers or substrate (index n - ik, k > 0) every efficiency is finite and non-negative and all of '
     'them together never exceed 1; with lossless layers on an absorbing substrate, reflected power plus power '
     'entering the substrate is exactly 1. Thickening an absorbing uniform film attenuates each transmitted order by '
     'its own physical exponential factor, and a film thick enough to be opaque no longer affects reflection.',
     ['inputs', 'configurations'],
     'every absorbing cell, film and substrate, metals included, on every backend and solver dimension',
     'The tests contain no passivity assertion and no thick absorbing layer; a growing exponential or the wrong branch '
     'of a square root shows only for particular materials, orders and thicknesses.',
     f('rcwa', 'transfer_method'),
     [('decaying-wave branch', 'transfer_method.py: transfer_*_1 (kz_bot), transfer_*_2 (q)'),
      ('stable layer recursion', 'transfer_method.py: transfer_*_3')],
     SOLVE, 'generated absorbing structures: passivity, substrate power balance and attenuation rate (invariants)')

prop('P03', 'Uniform stacks reproduce the analytic Fresnel result',
     'A stack of uniform layers gives, at the zeroth order, exactly the reflected and transmitted efficiency and '
     'complex amplitude of the analytic multilayer formula for s and p light at any angle, and nothing in any other '
     'order. This includes absorbing layers and substrate, total internal reflection, any azimuth, any number of '
     'Fourier orders and any period.',
     ['inputs', 'configurations'],
     'every list of uniform layers, angle, polarisation, truncation order and backend',
     'No test compares with a closed form; agreement must hold over continuous angles, indices and thicknesses.',
     f('rcwa', 'transfer_method', '_base'),
     [('incident wave vector and boundary terms', '_base.py: get_kx_ky_vector; transfer_method.py: transfer_*_1, _4')],
     SOLVE, 'generated stacks against an independent transfer-matrix formula (differential)')

prop('P04', 'Efficiencies equal an independent rigorous solution',
     'For any layered periodic structure, every reported diffraction efficiency equals that of the truncated '
     'coupled-wave equations with the same Fourier orders and the Fourier factorisation rules (normal component '
     'inverse rule, tangential components direct rule), for the chosen discrete, enhanced discrete or continuous '
     'Fourier series of the cell.',
     ['inputs', 'configurations'],
     'every cell, stack, angle, polarisation, period, wavelength, Fourier order, backend and Fourier-series setting',
     'The tests hold no independent reference; equality must hold order by order for all structures.',
     f('rcwa', 'transfer_method', 'convolution_matrix', 'fourier_analysis', 'primitives'),
     [('coupled-wave operator', 'rcwa.py; transfer_method.py'), ('Fourier factorisation', 'convolution_matrix.py')],
     SOLVE, 'generated structures against an independent reference solver (differential)')

prop('P05', 'The three backends compute the same physics',
     'For the same inputs the NumPy, JAX and PyTorch backends return the same efficiencies for every order and '
     'polarisation, and the same complex amplitudes and internal fields once each backend\'s fixed sign, phase and '
     'normalisation convention is applied.',
     ['inputs', 'configurations'],
     'every raster structure, angle, polarisation, Fourier setting and field resolution',
     'Backends are separately written copies; the tests run a few fixed cells and do not compare every output.',
     SOLVER, [('parallel implementations', 'rcwa.py, transfer_method.py, field_distribution.py of each backend')],
     SOLVE + ['calculate_field()'], 'generated structures, backend against backend (differential)',
     'finding F1 (mixed polarisation sign between backends) is recorded and translated, not hidden')

prop('P06', '1D, conical and 2D formulations agree; polarisation superposes',
     'A grating uniform along y gives the same efficiencies from the 1D, the conical and the 2D formulation, and the '
     'same complex amplitudes from the last two. The response to any polarisation is the coherent sum '
     'sin(psi) x TE response + cos(psi) x TM response, where the TE and TM responses reported in the result do not '
     'depend on the polarisation asked for.',
     ['inputs', 'configurations'],
     'every one-dimensional grating, stack, angle and polarisation on every backend',
     'The tests call each formulation on separate fixed inputs and do not relate them.',
     f('rcwa', 'transfer_method', '_base'),
     [('grating type dispatch', '_base.py; rcwa.py: solve'), ('polarisation right-hand side', 'transfer_method.py: transfer_2d_4')],
     SOLVE, 'generated gratings, formulation against formulation (metamorphic)')

prop('P07', 'Every way of describing a cell gives the same optics',
     'With the continuous Fourier series a raster cell gives the same efficiencies as the same cell drawn with '
     'rectangles (in any drawing order), as the same cell on a finer pixel grid, and as the exact Fourier integrals of '
     'the drawn rectangles, where later rectangles cover earlier ones. The plain discrete series approaches the '
     'continuous one as the same cell is sampled more finely.',
     ['inputs', 'configurations'],
     'every raster pattern and its rectangle drawing, overlapping and touching rectangles, Fourier order and backend',
     'Tests compare a couple of fixed drawings; equality must hold for every pattern and order.',
     f('convolution_matrix', 'fourier_analysis') + ['meent/on_numpy/modeler/modeling.py'],
     [('series coefficients', 'fourier_analysis.py'), ('cell compression', 'convolution_matrix.py: cell_compression'),
      ('drawing', 'modeler/modeling.py: draw, vector_per_layer_numeric')],
     SOLVE, 'generated cells, drawing against drawing (metamorphic) and against exact coefficients (reference)',
     'finding F2 (row orientation between series types) is recorded and translated, not hidden')

prop('P08', 'Moving, mirroring, turning and repeating the structure acts as in space',
     'Shifting every layer by whole pixels changes no efficiency and turns each order\'s amplitude by exactly that '
     'order\'s phase. Mirroring or turning the structure by half or a quarter turn together with the light only '
     'relabels the orders, azimuth counts modulo a full turn, and describing the same structure with a cell of several '
     'periods leaves the extra orders dark.',
     ['inputs', 'configurations'],
     'every raster cell, stack, shift, mirror axis, azimuth, polarisation and backend (quarter turns for layers varying '
     'along one direction, repeated cells with the continuous series)',
     'The tests never relate two runs by a symmetry; a sign or transposition error that keeps each run plausible '
     'passes all of them.',
     f('rcwa', 'transfer_method', 'convolution_matrix', 'fourier_analysis', '_base'),
     [('diffraction-order wave vectors', '_base.py: get_kx_ky_vector'), ('Toeplitz assembly', 'convolution_matrix.py')],
     SOLVE, 'generated structures, original against transformed run (metamorphic)')

prop('P09', 'Layer bookkeeping, trivial layers and units do not matter',
     'Cutting a layer into slices, inserting a layer of zero thickness, or adding slabs of the superstrate or of a '
     'lossless substrate around the stack changes no efficiency. Scaling all lengths together, or all indices together '
     'with the wavelength, changes nothing. With the same medium everywhere all light goes straight on.',
     ['inputs', 'configurations'],
     'every stack, way of cutting it, filler layer, pad thickness and unit of length, on every backend',
     'Layer order, thickness pairing and boundary terms show only when the same optics is described in two ways, which '
     'no test does.',
     f('rcwa', 'transfer_method'),
     [('layer loop and recursion', 'rcwa.py: solve_*; transfer_method.py: transfer_*_2, _3')],
     SOLVE, 'generated stacks, one description against another (metamorphic)')

prop('P10', 'Reciprocity of specular reflection and straight transmission',
     'Sending the light back along the reflected or the straight-through transmitted ray, with source and detector '
     'polarisation exchanged, gives the same efficiency, for any absorbing or lossless structure.',
     ['inputs', 'configurations'], 'every stack, angle, polarisation pair and backend; zeroth order',
     'A reciprocity relation joins two runs at different angles or from opposite sides; the tests contain none.',
     f('rcwa', 'transfer_method', 'convolution_matrix'),
     [('boundary conditions at both ends of the stack', 'transfer_method.py: transfer_*_1, _4')],
     SOLVE, 'generated structures, forward against reversed run (metamorphic)')

prop('P11', 'Internal fields are the fields of the reported solution',
     'The arrays of calculate_field and conv_solve_field equal the field of the truncated coupled-wave solution at '
     'every sampled point of every layer, for each selected incidence and any field resolution: they join continuously '
     'between layers and with the reflected and transmitted orders, and carry the reported power.',
     ['inputs', 'configurations'],
     'every stack, angle, polarisation, resolution, subset of requested incidences, backend and solver dimension',
     'Tests only check that field arrays are produced; every point of every component must be right.',
     f('field_distribution', 'rcwa', 'transfer_method'),
     [('field reconstruction', 'field_distribution.py'), ('mode amplitudes kept by the solver', 'rcwa.py: layer_info_list')],
     ['calculate_field()', 'conv_solve_field()'], 'generated structures against the reference field (differential)')

prop('P12', 'Complex amplitudes are right in size and phase for every order',
     'R_s, R_p, T_s and T_p equal the amplitudes of the truncated coupled-wave solution in the backend\'s fixed sign '
     'and normalisation convention for every order, evanescent ones included, and the efficiencies are exactly what '
     'those amplitudes imply.',
     ['inputs', 'configurations'],
     'every stack, angle, polarisation, Fourier setting, order and backend',
     'The tests look at efficiencies, which hide phases, signs and compensating factors.',
     f('transfer_method', 'rcwa'),
     [('amplitudes and efficiencies', 'transfer_method.py: transfer_*_4')],
     SOLVE, 'generated structures against the reference amplitudes (differential)')

prop('P13', 'Gradients equal the derivative of the computed result',
     'On PyTorch and JAX the automatic gradient of any smooth function of the reported efficiencies and amplitudes with '
     'respect to angles, polarisation, wavelength, indices, periods, thicknesses, every pixel of a raster cell and '
     'every size, position and index of a drawn object is finite and equals the numerical derivative.',
     ['inputs', 'configurations'],
     'every structure, parameter or combination of parameters, functional and direction (nearly coinciding layer modes '
     'and touching edges excepted)',
     'The tests print automatic and numerical gradients for one design without comparing them.',
     ['meent/on_torch/emsolver', 'meent/on_jax/emsolver', 'meent/on_torch/modeler/modeling.py', 'meent/on_jax/modeler/modeling.py'],
     [('eigen-decomposition derivative', 'primitives.py: Eig.backward, eig_bwd'), ('cell compression', 'convolution_matrix.py')],
     ['gradients of conv_solve() outputs'], 'generated structures, automatic against extrapolated finite differences (differential)')

prop('P14', 'The optimisation helpers return true gradients and take true steps',
     'grad() of the PyTorch and JAX solvers returns, for any subset of parameters and any loss, the gradient of that '
     'loss at the current values, the same on every call, leaving the values as they were. fit() performs exactly the '
     'chosen optimiser\'s updates: the final values are those of an independent optimiser loop over the same loss, '
     'and parameters not named stay put.',
     ['inputs', 'histories'],
     'every structure, named-parameter subset, loss, optimiser, learning rate, iteration count and call sequence',
     'The tests run one optimisation for one design and check only that it ends.',
     ['meent/on_torch/optimizer', 'meent/on_jax/optimizer', 'meent/on_torch/mee.py', 'meent/on_jax/mee.py'],
     [('gradient and optimisation loops', 'optimizer.py: grad, fit')],
     ['mee.grad()', 'mee.fit()'], 'generated structures and call histories against an independent optimiser loop (model-based)')

prop('P15', 'A solve depends only on the current settings',
     'On every backend the result of a solve or field calculation is a function of the settings in force and of nothing '
     'else: after any sequence of solves, field calculations and changes of settings an object returns what a '
     'freshly made one with those settings returns. Other live objects do not affect it, arrays passed in are not '
     'modified, and results already handed out do not change.',
     ['histories', 'inputs', 'configurations'],
     'every sequence of setting changes, solves and field calculations on one or several objects of any backend',
     'The tests solve a fresh object once; leftover state needs a particular sequence of calls.',
     f('rcwa', '_base', 'field_distribution') + [f'meent/on_{b}/mee.py' for b in ('numpy', 'jax', 'torch')],
     [('kept solver state', 'rcwa.py: layer_info_list, T1, kx, ky; _base.py setters')],
     SOLVE + ['calculate_field()'], 'generated call histories against a fresh object (stateful, model-based)')

prop('P16', 'Equivalent settings mean the same and invalid ones are refused',
     'Every accepted spelling of a setting (number, list, tuple, array, tensor; constructor, attribute or argument of the solve call; pol or psi; '
     'dtype name or object; defaults given or omitted) gives the same simulation as every other spelling of the same '
     'value. Unsupported values (polarisation out of range, malformed '
     'orders or periods, unknown dtype, device or backend, unsupported cells) raise an error and are never '
     'silently computed with.',
     ['inputs', 'configurations'],
     'every setting, accepted spelling, invalid value and backend',
     'The tests use one spelling of each setting and no invalid ones.',
     f('_base', 'rcwa') + ['meent/main.py'] + [f'meent/on_{b}/mee.py' for b in ('numpy', 'jax', 'torch')],
     [('setters', '_base.py'), ('backend choice', 'main.py: call_mee')],
     SOLVE + ['settings read back'], 'generated spellings against the canonical one (metamorphic) and generated invalid values')

ALLB = ('numpy', 'jax', 'torch')
MODELER = [f'meent/on_{b}/modeler/modeling.py' for b in ALLB]
NK = ['meent/dispersion.py', 'meent/nk_data']

prop('P17', 'Drawn shapes cover the region they describe',
     'A rectangle or ellipse drawn with vector modelling covers the region it describes: centre, side lengths or axes '
     'and angle as given, a rectangle exactly and an ellipse within the resolution of its subdivision, its area '
     'included, on every backend. Moving or scaling the drawing moves or scales what is drawn. Where objects overlap the '
     'later one wins, the base index shows everywhere else, and layers stay separate.',
     ['inputs', 'configurations'],
     'every rectangle and ellipse inside the cell, angle, subdivision, number, order and overlap of objects, layers and backend',
     'The tests draw a handful of shapes and compare no outline; rotation, splitting and painting order have many branches '
     'in the angle and overlap.',
     MODELER,
     [('shapes as stacks of axis-parallel parts', 'modeling.py: rectangle, rectangle_rotate, ellipse'),
      ('merging parts into one layer', 'modeling.py: vector_per_layer_numeric')],
     ['modeling_vector_instruction() drawings, compressed layers'],
     'generated drawings against point-wise membership in the mathematical shape (reference model)')

prop('P18', 'A material name gives the tabulated index at the wavelength',
     'Looking up a material by name, in any letter case, gives its tabulated complex index at the wavelength, linearly '
     'interpolated between the rows of its table or evaluated from its published formula, with absorption entering as '
     'n - ik, on every backend and precision, for the shipped library as well as a directory of the user\'s own tables. '
     'Cells naming materials (alone or mixed with numbers) are filled with those values and the listing gives each '
     'material\'s range. A wavelength outside the table warns and takes the end value; an unknown name is refused.',
     ['inputs', 'configurations'],
     'every shipped table, every generated table directory, wavelength, name spelling, cell, precision and backend',
     'The tests look no material up at a wavelength between rows or at the edge of a range.',
     MODELER + NK,
     [('table reading', 'modeling.py: read_material_table'), ('interpolation', 'modeling.py: find_nk_index'),
      ('cells naming materials', 'modeling.py: put_refractive_index_in_ucell')],
     ['find_nk_index()', 'put_refractive_index_in_ucell()', 'read_material_table()'],
     'generated tables, wavelengths and cells against an own parser and interpolation (reference model)')

prop('P19', 'Dispersion models equal the physical integrals they stand for',
     'The oscillator models (Drude with Gaussian-smeared Lorentz oscillators) and the graphene model give, for any '
     'parameters and wavelength in their range, the index of the physical integrals they stand for, absorbing (n - ik), '
     'the same on every backend, and parameters of the wrong form are refused.',
     ['inputs'],
     'every set of oscillator strengths, widths, dampings and centres, Fermi level, mobility, temperature, sheet '
     'thickness and wavelength',
     'The closed forms (Faddeeva function, split quadrature) have branches in temperature and energy which no test evaluates.',
     MODELER + NK,
     [('models', 'dispersion.py: model_brendel_bormann_ev, model_brendel_bormann_cm, graphene_falkovsky')],
     ['find_nk_index() of model materials'],
     'generated parameters against an own adaptive quadrature of the defining integrals (reference model)')

prop('P20', 'Diagonal anisotropy: each Cartesian index acts on its own component',
     'On the PyTorch backend a cell given as three index maps (x, y, z) is solved as the diagonally anisotropic medium '
     'with those principal indices: efficiencies, amplitudes, fields and gradients equal those of an independent '
     'coupled-wave solution, energy is conserved without loss, equal maps give the isotropic result, and exchanging x and '
     'y together with the geometry changes nothing. Cells with another number of maps are refused.',
     ['inputs', 'configurations'],
     'every anisotropic raster or drawn cell, stack, angle, polarisation and Fourier setting',
     'No test passes an anisotropic cell; a permutation of the three indices or a map used twice goes unnoticed.',
     ['meent/on_torch/emsolver', 'meent/on_torch/modeler/modeling.py'],
     [('three convolution matrices', 'convolution_matrix.py: to_conv_mat_*'), ('solvers', 'rcwa.py: solve_*, primitives')],
     SOLVE + ['calculate_field()'],
     'generated anisotropic stacks against an independent coupled-wave reference (reference model) and metamorphic relations')

prop('P21', 'Pseudo-inverse and single precision give the same physics',
     'Solving with the pseudo-inverse instead of the inverse gives the same efficiencies, amplitudes, fields and '
     'gradients, also where the pseudo-inverse routine of PyTorch fails to converge and another one takes over. Single precision '
     'gives the double-precision result within its accuracy on every backend, with fields (on PyTorch every result) in '
     'single-precision arrays.',
     ['inputs', 'configurations'],
     'every raster or drawn structure, solver dimension, Fourier setting and backend',
     'The tests run one precision and one inverse; a branch of either option used in one solver only is never compared.',
     f('rcwa', 'transfer_method', 'convolution_matrix', 'field_distribution', '_base'),
     [('inverse choice', 'primitives.py: meeinv'), ('precision', '_base.py: type_complex')],
     SOLVE + ['calculate_field()'], 'generated structures, one numerical option against the other (differential)')

prop('P22', 'Special points are ordinary inputs',
     'Normal and near-grazing incidence, incidence along or between the axes, autocollimation (an order going straight '
     'back or straight up), pattern indices equal to the surroundings, matched or empty surroundings, square cells, films '
     'of zero, quarter- or half-wave thickness, and orders or modes exactly at cutoff give finite, correct results, '
     'continuous with their neighbourhood, on every backend.',
     ['inputs', 'configurations'],
     'every structure moved onto one or more of these coincidences, on every backend, solver dimension and Fourier setting',
     'Coincidences are a set of measure zero that random or hand-picked inputs meet in one combination at a time; '
     'division by a vanishing wave number shows only there.',
     f('rcwa', 'transfer_method', '_base'),
     [('guards against vanishing wave numbers', 'transfer_method.py'), ('order wave vectors', '_base.py: get_kx_ky_vector')],
     SOLVE, 'generated coincidences against an independent coupled-wave reference and analytic films (reference model)')

prop('P23', 'Many orders, layers, pixels and thick layers stay stable and exact',
     'With many Fourier orders, tens of layers, hundreds-of-wavelengths-thick layers, finely sampled cells and periods '
     'far below or above the wavelength the results stay finite, passive, energy-conserving without loss, and equal to '
     'an independent solution of the same truncated problem.',
     ['inputs', 'configurations'],
     'every raster structure with up to 45 orders per side, 25 layers, 300 wavelengths of thickness and several hundred pixels',
     'The tests use small truncations and few thin layers, where growing exponentials and accumulated rounding stay hidden.',
     f('rcwa', 'transfer_method', 'convolution_matrix'),
     [('stable recursion', 'transfer_method.py: transfer_*_2, _3')],
     SOLVE, 'generated large structures against conservation laws (invariant) and an independent reference (reference model)')

prop('P24', 'jax transformations see the same simulation',
     'A jax simulation object keeps every setting when it is flattened and rebuilt, and solving it under jit, vmap over '
     'any numeric setting, or grad gives what the plain solve gives at the same values, also when a compiled function is '
     'called again with other values.',
     ['inputs', 'configurations', 'histories'],
     'every structure, subset of traced settings and sequence of values; two-dimensional cells with the discrete series '
     'under jit and vmap, every solver for flattening',
     'The tests trace one function once; a setting baked into the compiled code shows only when it is called again with '
     'another value.',
     ['meent/on_jax/emsolver', 'meent/on_jax/mee.py'],
     [('flattening', 'rcwa.py, mee.py: _tree_flatten, _tree_unflatten'), ('eigenvalue rule', 'primitives.py')],
     ['jax.jit/vmap/grad over a mee', SOLVE[0]], 'generated structures, transformed against plain evaluation (differential)')


def main():
    props = sorted(P, key=lambda t: t[0]['id'])
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as fh:
        for p, _, _ in props:
            assert len(p['title']) <= 80, p['id']
            fh.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p, method, note in props:
        i = p['id']
        if not os.path.exists(os.path.join(ROOT, 'props', i.lower() + '.py')):
            na.append(dict(property=i, reason='check not built yet'))
            continue
        checks.append(dict(property=i, quick_cmd=f'bash check.sh {i} quick', thorough_cmd=f'bash check.sh {i} thorough',
                           technique='property-based testing: ' + method, level='exploration',
                           level_note='Random structured search with shrinking over the stated domain; no proof. '
                                      'Trusts numpy/scipy linear algebra and the oracle in /verif.'
                                      + (' ' + note + '.' if note else '')))
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fh:
        json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
                       notes='No hooks: every check drives the public API.'), fh, indent=1)


if __name__ == '__main__':
    main()
