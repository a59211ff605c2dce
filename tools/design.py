#!/usr/bin/env python3
"""Writes DESIGN.md from the prose below, checks.py (bounds), the evidence files (numbers), known_findings.json and seeded/ (with seeded results in tools/seeds/results.json)."""
import sys,json,os,re
V='/verif'; sys.path.insert(0,V+'/tools'); sys.path.insert(0,V+'/engine')
import props,claims,checks
P={}
P['M01']='Shapes are compile-time parameters, so each listed shape is one harness; all entries are symbolic. Oracle: the sum of products written out in the harness. Every operator form (owned, borrowed, both, assigning) is compared; blocked shapes straddle the block size 16 and the small-size limit 8 in each dimension separately. Decided mostly by ring normal forms.'
P['M02']='Factorise, solve, invert and take determinants of symbolic matrices; oracle: A x = b, A A^-1 = I, L U = P A, L L^T = A, the Leibniz determinant, and an error for exactly singular input. Pivot order is a branch on symbolic values, so every row order is its own path.'
P['M03']='Norms, products, angles and normalisation in dimensions 1 to 6 against their definitions; angles through cosine (degenerate and opposite directions included).'
P['M05']='Indices are symbolic integers: a write through one index and a read through another must differ exactly when the indices differ, flat position = row-major formula, out-of-range index must panic (panic_ok harness: reaching the end is the violation).'
P['M04']='Every x86 kernel is called directly (so with and without FMA), and the dispatching methods with all processor features and with none; loads and stores outside the operands are path ends that count as violations. The vector instructions of the IR are executed lane by lane.'
P['P01']='The no-standard-library implementation comes from the crate built with its default features; the standard one is compiled from the same source files with the feature on. Each operation is compared with the method of core or std of that name; sign, order and constants in bit-exact floats.'
P['V01']='The reader is included from the source with `std` replaced, inside that module only, by a modelled file: the visible length is set by the writer\'s schedule, an input, before and during every poll. Digits are inputs and stay symbolic through line splitting, trimming and decimal parsing (modelled exactly); the number and values of the delivered rows are compared with the complete rows of the visible prefix after every poll.'
P['W01']='Bit-exact floats. bincode runs over byte slices whose length is an input; serde runs over a token list in the harness, with row counts, column counts and the position of an unreadable element as inputs. An element type that counts its live instances shows leaks and double drops.'
P['O03']='The crate is built with `--cfg aether_verif`, which replaces std::thread by a stand-in that runs each worker when the harness says so; the order is an input. Two runs, one in the canonical order and one in a symbolic order, must end in the same bits for a gradient that is an arbitrary function of the random stream (floating-point theory); the update rule is replayed as in O02 on reals.'
P['N01']='The right-hand side is a symbolic linear system or cubic in time; the step must equal the Taylor polynomial of its order. Stage order is observed through closures that record their arguments.'
P['N02']='Function and derivative are closures returning a fresh symbolic value at every call, so every function is covered; oracle: iterates follow x - f/f\', success is reported only below tolerance, failure only after the iteration budget or a vanishing derivative.'
P['N03']='Interpolants through symbolic nodes: nodes are hit, polynomials of the stated degree reproduced, spline pieces join with two continuous derivatives, natural ends, lookup picks the right piece, outside the nodes as documented, duplicates are errors.'
P['A01']='Orthogonality and unit determinant of every constructor, identities modulo sin^2+cos^2=1.'
P['A02']='Every pair of representations rotates a symbolic vector alike, including gimbal lock (an explicit region) and the four extraction branches.'
P['A03']='Quaternion from matrix and back is the same rotation on every branch of the extraction.'
P['A04']='Composition, inverse and identity laws on symbolic unit quaternions and matrices.'
P['A05']='Integration by a constant rate against the closed-form rotation; Taylor form against the series coefficients; unit result.'
P['A06']='Angles recovered from matrices and quaternions built from symbolic angles, compared by sine and cosine.'
P['T01']='Integers, exact two\'s-complement arithmetic in the integer theory: all 64-bit counts. Normal form, ordering, add/subtract and unit constructors against 128-bit arithmetic.'
P['T02']='All instants: converting between scales and back is exact; leap offset table order.'
P['T03']='Weeks and seconds against epoch arithmetic; rollover hint resolves to the nearest congruent week, for every hint.'
P['T04']='Calendar conversion against the proleptic-Gregorian successor: each day maps to the date after its predecessor\'s (a step argument), and round trips.'
P['T05']='Histories of polls and steps with symbolic times: due exactly when the period has passed, never twice, catches up as documented, before 1970 included.'
P['T06']='Tick counters of symbolic rate: monotone, exact for whole seconds, no wrap.'
P['F01']='Conversions between coordinate systems compared with their defining equations and composed.'
P['F02']='Every frame matrix is orthogonal, maps the axes it should and chains; body_to_ned also up to transposition because of the known finding.'
P['F03']='Forward conversion with symbolic latitude, longitude and height; the inverses at fixed sites (all longitudes) and on the equator (all heights) because the closed form nests radicals too deeply.'
P['E01']='Layer by layer: temperature linear, pressure hydrostatic (derivative identity through the exponent normal form), density ideal gas, joins continuous, clamping above.'
P['E02']='One harness per height regime; joins at each boundary, published base temperatures, hydrostatic pressure, gas law, sound speed, errors above the ceiling. Pressures above 91 km are three known findings.'
P['E03']='Somigliana on the ellipsoid; the gravity vector against the gradient of the level-ellipsoid potential written independently in ellipsoidal coordinates; frame forces against cross products.'
P['E04']='Inverse-square law, orbit radius and period identities, orientation and spin of the Moon for symbolic time and epoch.'
P['E05']='The field and its drift at degree 12 with symbolic longitude and date at five sites against an independent explicit-sum Legendre evaluation; element relations for an arbitrary field vector (three coefficients poked to symbolic values span it); coefficients linear in time, one by one.'
P['C01']='Star position, velocity, uncertainty and colours against the defining formulas; table interpolation monotone and in range.'
P['R01']='Bit-exact: bit-vector state and the solver\'s floating-point theory. Injectivity asks for two different states with one image.'
P['S01']='Moments of symbolic samples against definitions; correlation range by Cauchy-Schwarz (nonlinear real arithmetic).'
P['S02']='Densities against closed forms, fits against moments, probabilities against frequencies.'
P['L01']='One epoch of each trainer against the update of the documented loss; the loss and gradient closures handed to the optimiser are compared through the optimiser\'s own evaluation at symbolic points.'
P['L02']='Fitted moments and counts; the prediction is the class of greatest discriminant, written out in the harness.'
P['O01']='Cost and gradient return fresh symbolic values at each call and log their arguments; each logged iterate is checked against bounds, the sufficient-decrease rule, the reported cost, count and convergence flag.'
P['O02']='As O01 with the stochastic sampler; batch mean, momentum, schedule, averaging, patience.'
P['H01']='Closed-form mass properties; sums and differences at symbolic poses (any matrix) against the parallel-axis sum about the common centre.'
P['D01']='Clamping, mass and inertia formulas, aggregation over up to three tanks with symbolic masses of either sign.'
P['U01']='Every prefixed unit in both directions.'
P['G01']='View and perspective matrices against geometric facts; each camera control as one symbolic step from a symbolic state.'
P['K01']='Bit-exact floats including infinities and not-a-number: the helper passes iff the definition says so (a panic is a path end).'
def main():
    B={x['id']:x for x in checks.CHECKS} if isinstance(getattr(checks,'CHECKS',None),list) else checks.CHECKS
    ev={}
    for f in os.listdir(V+'/evidence'):
        if f.endswith('.json'): e=json.load(open(V+'/evidence/'+f)); ev[e['property']]=e
    t=open(V+'/tools/design_head.md').read()
    out=[]
    for p in props.P:
        i=p['id']
        if i in claims.CLAIMS:
            b=B[i].get('bounds'); e=ev.get(i); c=e['coverage'] if e else {}
            out.append('### %s  %s\n\n%s\n\n*Bounds.* %s.  *Not covered / notes.* %s.\n'%(i,p['title'],P[i],b,claims.CLAIMS[i]['note']))
            if e: out.append('*Last quick run here.* %s paths, %s obligations, %s functions of the repository encoded, %.0f s of solver time, %.0f s wall.\n'%(c.get('paths'),c.get('obligations'),c.get('functions_encoded_count','?'),c.get('solver_time_s',0),e['wall_s']))
    t=t.replace('<!-- properties -->','\n'.join(out))
    t=t.replace('<!-- na -->','\n'.join('- **%s** %s: %s'%(p['id'],p['title'],claims.NA.get(p['id'],claims.PENDING)) for p in props.P if p['id'] not in claims.CLAIMS))
    kf=json.load(open(V+'/known_findings.json'))
    t=t.replace('<!-- fixed -->','| property | commit | defect |\n|---|---|---|\n'+'\n'.join('| %s | %s | %s |'%(x['property'],x['commit'],re.sub(r'^fixed: property=\S+ \S+ ','',x['what'])) for x in kf if x['status']=='fixed'))
    t=t.replace('<!-- open -->','\n'.join('- %s (%s, harness `%s`): %s'%(x['property'],x['id'],x['harness'],x['what']) for x in kf if x['status']!='fixed'))
    try: R=json.load(open(V+'/tools/seeds/results.json'))
    except Exception: R={}
    rows=[]
    for s in sorted(os.listdir(V+'/seeded')):
        m=json.load(open(V+'/seeded/%s/meta.json'%s)); rows.append('| %s | %s | %s | %s |'%(s,m['property'],m['needs'],R.get(s,'not run yet')))
    t=t.replace('<!-- seeds -->','| change | property | needs | outcome of the property\'s check |\n|---|---|---|---|\n'+'\n'.join(rows))
    open(V+'/DESIGN.md','w').write(t)
main()
