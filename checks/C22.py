"""Command-line arguments override exactly the settings they name."""

from fractions import Fraction as Fr
import numpy as np
from common import *
from simrun import pick

BOUNDS = ('0 to 7 arguments; setup and input number any integer in [-10^6,10^6], timestep any real in [0,1000], number of '
          'frames any integer in [0,10^6], the other two any of a list of words; each argument in turn unreadable')
OUTSIDE = 'numerals written with underscores, infinities, blanks'
ASSUMPTIONS = ['reading a numeral gives its value']

NAMES = ['setup_number', 'input_number', 'timestep', 'num_frames', 'input_form', 'extract_force_on_wall_due_to_dumbbells']
OTHERS = ['fully_2d_problem', 'invert_m_every', 'cutoff_factor', 'timestepping_scheme',
          'rk4_generate_minfinity_for_each_stage', 'feed_every_n_timesteps', 'feed_from_file',
          'how_far_to_reproduce_gridpoints', 'printout', 'email_on_completion', 'view_graphics', 'bead_bead_interactions',
          'explosion_protection', 'start_saving_after_first_n_timesteps', 'save_positions_every_n_timesteps',
          'save_forces_every_n_timesteps', 'save_forces_and_positions_to_temp_file_as_well',
          'save_to_temp_file_every_n_timesteps', 'use_drag_Minfinity', 'use_Minfinity_only', 'use_drag_R2Binfinity',
          'viewbox_bottomleft_topright', 'viewing_angle', 'view_labels', 'trace_paths', 'two_d_plot']
WORDS = ['True', 'true', 't', 'T', '1', 'False', 'false', '0', 'f', '', 'no']
FORMS = ['fts', 'fte', 'ufte', 'ufteu', 'duf']


class Numeral(str):
    """Text whose reading is a free number."""
    value = None
    whole = True


def numeral(api, v, whole):
    if not api.symbolic:
        return str(int(round(v))) if whole else repr(float(v))
    t = Numeral('1' if whole else '1.5')
    t.value, t.whole = v, whole
    return t


def reading(kind, x):
    if isinstance(x, Numeral):
        if kind == 'int' and not x.whole:
            raise ValueError('invalid literal for int()')
        return x.value
    return {'int': int, 'float': float}[kind](x)


def read_settings(api, argv):
    """The settings module as seen with these arguments; (values, refused)."""
    ld = api.fresh_loader()
    ld.argv = argv
    if api.symbolic:
        import npshim
        npshim.CONVERT_HOOK[0] = reading
    try:
        m = ld.load('settings')
    except SystemExit as e:
        return None, str(e.code)
    finally:
        if api.symbolic:
            npshim.CONVERT_HOOK[0] = None
    return {k: getattr(m, k, None) for k in NAMES + OTHERS}, None


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(np.asarray(a), np.asarray(b))
    return type(a) is type(b) and a == b


def arguments(api, count):
    base, refused = read_settings(api, [])
    api.holds('defaults are accepted', base is not None)
    vals = [api.int('setup', -10 ** 6, 10 ** 6), api.int('input', -10 ** 6, 10 ** 6), api.real('dt', 0, 1000),
            api.int('frames', 0, 10 ** 6)]
    argv = [numeral(api, v, i != 2) for i, v in enumerate(vals)]
    if count >= 5:
        argv.append(FORMS[pick(api, 'form', 0, len(FORMS) - 1)])
    if count >= 6:
        argv.append(WORDS[pick(api, 'word', 0, len(WORDS) - 1)])
    if count >= 7:
        argv.append('more')
    argv = argv[:count]
    got, refused = read_settings(api, argv)
    api.holds('accepted', got is not None)
    for i, k in enumerate(NAMES):
        if i >= count:
            api.holds('%s untouched' % k, same(got.get(k), base.get(k)))
        elif i < 4:
            api.eq(k, got[k], vals[i])
        elif i == 4:
            api.holds(k, got[k] == argv[4])
        else:
            api.holds(k, got[k] is (argv[5] in WORDS[:5]))
    for k in OTHERS:
        api.holds('%s untouched' % k, same(got[k], base[k]))


def unreadable(api, count, bad):
    """A malformed number stops the program instead of being ignored."""
    vals = [api.int('setup', -10 ** 6, 10 ** 6), api.int('input', -10 ** 6, 10 ** 6), api.real('dt', 0, 1000),
            api.int('frames', 0, 10 ** 6)]
    argv = [numeral(api, v, i != 2) for i, v in enumerate(vals)] + ['fte', 'True']
    if bad == 2:
        argv[bad] = ['x', '', '0.1.1', '1,5'][pick(api, 'how', 0, 3)]
    else:
        k = pick(api, 'how', 0, 3)
        argv[bad] = ['x', '', '1e3', None][k] if k < 3 else numeral(api, api.real('half', Fr(1, 10), Fr(9, 10)), False)
    got, refused = read_settings(api, argv[:count])
    api.holds('refused', got is None and 'ERROR' in (refused or ''))


HARNESSES = [H('arguments-%d' % n, arguments, count=n) for n in range(8)]
HARNESSES += [H('unreadable-%d-%d' % (n, b), unreadable, count=n, bad=b) for n in (1, 2, 3, 4, 6) for b in range(min(n, 4))]
