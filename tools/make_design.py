"""Writes the per-property part of DESIGN.md; bounds are quoted from the checks so that they stay in step."""
import ast, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# id: (what is executed and how it is decided, oracle, what the tests cannot reach, quick seconds)
TEXT = {
'C01': ('`generate_output_FTSUOE` is executed in each solving mode with the resistance matrix replaced by a symbolic family and the prescribed data symbolic. The linear solves inside are executed exactly.',
        'residual form: forces minus resistance times (velocity minus background) must be identically zero, prescribed quantities must be returned verbatim; no second solver is involved.',
        'the test runs one mode with one pair', 8),
'C02': ('packing and unpacking routines on fully symbolic tensors and vectors.', 'round trip is the identity; the packed dot product equals the double contraction.', 'one strain field is not every strain field', 1),
'C03': ('mobility generation for two (and three) spheres with symbolic separations, radii and viscosity.', 'tensors obtained by symbolic differentiation of the Oseen tensor with Faxen operators, written from the physics.', 'off-axis pairs, unequal radii, clamped pairs, individual blocks', 6),
'C04': ('two executions of the real matrix generation in different frames or numberings, compared entry by entry.', 'the relation between both executions (transpose, permutation, translation, axis permutation, reflection, 3-4-5 rotation).', 'a symmetry is a statement about all configurations', 30),
'C05': ('lubrication matrix with uninterpreted table functions, all size ratios in the table, symbolic separation.', 'two-sphere resistance tensors (axisymmetric decomposition into X, Y and Z parts along the line of centres) assembled from the scalars independently of the code.', 'off-axis pairs, unequal spheres, pairs outside the cutoff, three spheres', 36),
'C06': ('the interpolation of each row of the shipped table at a symbolic separation, interval by interval.', 'linear interpolation between the neighbours; reciprocal relations between ratio and inverse ratio.', 'all separations between table entries', 20),
'C07': ('grand resistance generation with every combination of options and an arbitrary cached matrix.', 'inverse of the far field (uninterpreted above 6x6) plus lubrication, both obtained by separate calls; drag law from the statement; for the matrix a solution is made with, a direct call with the same viscosity, box, shear and options.', 'options are never used by the test', 45),
'C08': ('two executions with viscosity or lengths scaled by a symbolic factor.', 'dimension of each block.', 'viscosity 1 and radius 1 throughout the tests', 16),
'C09': ('matrices with dumbbells compared with those of separate spheres at the bead positions.', 'the sphere routine on separate beads, combined with the sum/difference rule.', 'no test has a dumbbell', 3),
'C10': ('the periodic mobility with symbolic separations; erfc and exp uninterpreted.', 'the Ewald sum obtained by repeated differentiation of s*erfc(lambda s) and the Fourier transform, written from the physics.', 'no test is periodic', 76),
'C11': ('close-pair detection with symbolic positions, radii and cutoff; each comparison forks.', 'definition of the close pairs on the nearest image.', 'combinations of pairs, cutoff boundary, lattice images', 7),
'C12': ('wrapping with symbolic positions, box and shear; integer parts are solver integers.', 'there are integers n with new = old + n . box vectors, and the new position lies in the box.', 'no test is periodic', 2),
'C13': ('the whole simulation script with free hydrodynamics; each evaluation returns fresh symbols.', 'the update formulas of the three schemes written out from the statement.', 'tests look at a single frame of forces', 4),
'C14': ('marker rotation with symbolic angular velocity; sine and cosine as atoms with s^2+c^2=1.', 'Rodrigues rotation; length and angle preservation.', 'no test looks at markers', 11),
'C15': ('the whole script on an in-memory file system; intervals and start frame are solver integers.', 'the history recorded by the free hydrodynamics stand-in.', 'the test uses one frame with cadence one', 4),
'C16': ('the whole script run twice or three times on one in-memory file system, the moment of the stop being a solver variable (crash point).', 'the uninterrupted execution of the same script.', 'every crash point, also inside a write', 11),
'C17': ('post-processing of velocities with symbolic background flow.', 'definition of a linear flow about a centre.', 'the test has no translation or rotation', 1),
'C18': ('shear inputs with symbolic rate, period, phase, time.', 'simple shear = rotation + strain; derivative of the accumulated shear equals the rate (sine and cosine atoms).', 'not tested', 1),
'C19': ('repulsion routine with symbolic positions and radii; exp uninterpreted.', 'documented magnitude along the line of centres; action = reaction.', 'not tested', 2),
'C20': ('placement routines with the random generator replaced by fresh symbols (every random sequence).', 'containment and distance inequalities.', 'one seed says nothing about the others', 35),
'C21': ('index arithmetic with symbolic particle numbers; flattened data; reading saved frames.', 'tiling of the matrix: each cell belongs to exactly one block.', 'two spheres only', 2),
'C22': ('the settings and argument code with symbolic arguments.', 'the table of argument positions in the statement.', 'never passed arguments', 2),
'C23': ('formatting routines with symbolic durations and sizes; every number put into the text leaves a mark from which the text is read back.', 'value read back within the shown precision.', 'not tested', 2),
'C24': ('the near-field formula scripts with symbolic gap, its logarithm, and size ratio; float coefficients are exact decimals.', 'reciprocity and rigid-body balance (exact relations of Stokes flow), and agreement with the shipped mid-field table.', 'a wrong coefficient gives a plausible table', 60),
'C25': ('the mid-field script with the external two-sphere solver replaced by symbolic mobility functions.', 'resistance times mobility = identity after the documented scaling.', 'the script is never run by tests', 1),
'C26': ('the guards and the start of the script with symbolic dumbbell lengths, radii and input forms.', 'the documented condition, both directions.', 'guards are never triggered by tests', 38),
'C27': ('the table-building scripts in an in-memory folder with symbolic table contents.', 'each entry under its own key; subtraction of an independently supplied far-field pair.', 'scripts never run by tests', 5),
'C28': ('the drawing routines, whole runs with pictures and the redrawing scripts, with a recorder in place of the plotting library and symbolic states and viewing directions.', 'distance of outline points from the centre and from the plane facing the viewer; ends of lines and arrows; a run without pictures.', 'nothing is drawn by tests', 12),
'C29': ('the input and starting-position routines with symbolic positions, radii, time and scenario number.', 'the table of scenarios in the statement.', 'tests use their own scenarios', 3),
}

def consts(f):
    out = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('BOUNDS', 'OUTSIDE', 'ASSUMPTIONS'):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out

p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
a, rest = s.split('<!-- properties -->')[0], s.split('<!-- /properties -->')[1]
out = []
for l in open(os.path.join(V, 'properties.jsonl')):
    q = json.loads(l)
    c = q['id']
    how, oracle, tests, wall = TEXT[c]
    k = consts(os.path.join(V, 'checks', c + '.py'))
    out.append('### %s %s\n' % (c, q['title']))
    out.append('* Decided by: %s' % how)
    out.append('* Oracle: %s' % oracle)
    out.append('* Bounds: %s.' % k['BOUNDS'])
    out.append('* Outside: %s.' % k['OUTSIDE'])
    if k['ASSUMPTIONS']:
        out.append('* Assumes: %s.' % '; '.join(k['ASSUMPTIONS']))
    out.append('* Reaches beyond the tests: %s.' % tests)
    have = [b for b in sorted(os.listdir(os.path.join(V, 'seeded'))) if json.load(open(os.path.join(V, 'seeded', b, 'meta.json')))['property'] == c]
    out.append('* Cost: about %d s on the quick tier.%s\n' % (wall, '  Planted bug: %s.' % ', '.join(have) if have else ''))
rows = ['| bug | check | what it changes |', '|---|---|---|']
S = os.path.join(V, 'seeded')
for b in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, b, 'meta.json')))
    rows.append('| %s | %s | %s |' % (b, m['property'], m['what_it_breaks'].replace('|', '/')))
rest = re.sub('<!-- bugs -->.*<!-- /bugs -->', lambda _: '<!-- bugs -->\n\n' + '\n'.join(rows) + '\n\n<!-- /bugs -->', rest, flags=re.S)
open(p, 'w').write(a + '<!-- properties -->\n\n' + '\n'.join(out) + '\n<!-- /properties -->' + rest)
