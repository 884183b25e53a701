import json,re
o={
'C01':"every element of both coordinate arrays equals (j - Nx/2)*pitch, (Ny/2 - i)*pitch with symbolic pitch, wavelength, focal length; each preset model's Nx, Ny, pitch equals the data sheet; several devices alive at once do not disturb each other; coordinate -> index conversion inverts index -> coordinate",
'C02':"every element of the image grid equals the discrete conjugate frequency times wavelength*focal length written out independently (no fftfreq); several devices alive at once",
'C03':"padded Fourier grid against the continued formula of C01, centre crop against the device's own arrays, image grid against C02's formula for the padded size, areas against products of spacings",
'C04':"the tensor's terms equal f(x_ij, y_ij) of an uninterpreted f at the device's own coordinates; arrays, tensors, numbers and ConstantProfiles against their values, shape and dtype; re-sampling after a parameter change",
'C05':"physicists' Hermite polynomials from the explicit sum formula, times Gaussian, as rational function times exp of canonical argument",
'C06':"explicit associated Laguerre sum and (x - iy)^|l|-type expansion of exp(-i l phi), so cos/sin of atan2 is eliminated exactly",
'C07':"exp(-(rho^2/w^2)^P) with symbolic power, and exact expansion for integer powers; equality with HermiteGaussian(0,0) at P = 1",
'C08':"radial polynomial from the factorial formula, normalization as exact surds, aperture as a Boolean indicator over symbolic r and R; index validation decided over symbolic integers n, m",
'C09':"If-then-else indicator formula over reals, and the same as an IEEE-754 formula over all floats of both precisions",
'C10':"pointwise operation applied to uninterpreted operand values; evaluation of operands before and after building the derived profile",
'C11':"uninterpreted profile applied to the transformed coordinates; inverse pairs must give back the profile at the same arguments",
'C12':"symbolic history of assignments/evaluations against a freshly constructed profile with the final values, getters, derived profiles, other objects",
'C13':"amp*(1+cos(G-dphi))/2 written from symbolic coordinates; range [0, amp] over reals and over IEEE floats; arrays changed in place between calls",
'C14':"Boolean equality of each pixel with the threshold formula (indicator atoms on cos and tanh terms); two-run monotonicity with the same symbolic draws",
'C15':"the modulated field minus the three-term decomposition (DC, exp(-iG)*F[target]*eta/4, conjugate order) is identically zero for complex symbolic input and target; scaling clauses by two runs; image displacement by simulation",
'C16':"range, maximum attained, NaN-freedom (every denominator, square root and inverse trig argument's definedness is an obligation), dark pixels — on every pattern of lit/unlit pixels",
'C17':"the documented iteration re-implemented on terms; every pixel decision after N iterations compared as Boolean formula; fixed-point clauses",
'C18':"each mirror: If(inside circle, full-panel grating value, prior value) with symbolic centre and diameter, sequences of patches",
'C19':"every bit of the packed bytes as a bit-vector/integer term of the pixel Booleans; TypeError for other dtypes; on/off after arbitrary states",
'C20':"the GS / MRAF iteration re-implemented on terms with polar-free phase comparisons; fixed point, k-scaling and m=1 equivalence as two-run equalities",
'C21':"output field = input*exp(+i state) term by term; GS/MRAF design of a realizable target simulated back gives its intensity at the same coordinates; unit modulus, reset, power",
'C22':"image field against the Fourier sum written over the *reported* coordinates (both grids read from the API), zero padding, intensities",
'C23':"power equalities as polynomial identities (Parseval) in symbolic fields with symbolic pitch/wavelength; inequality for grayscale states in [0,1]",
'C24':"each image pixel: If(x^2+y^2 < r^2, 0, old), symbolic radius, default radius; other fields unchanged; TypeError before propagation",
'C25':"symbolic operation sequence; after each step all fields equal the snapshot of the last propagation, or None; TypeErrors for constructor arguments",
'C26':"same case under both back ends (selection is a symbolic Boolean per call) gives identical terms; forward∘inverse = identity",
'C27':"symbolic operation sequence on a fresh back end against a two-state automaton; dtypes of all public results",
'C28':"integer formula with sqrt/ceil semantics over a symbolic j (up to 2^20), also bit-precise in double arithmetic; injectivity over symbolic pairs",
'C29':"coefficient = mean over the pixels inside the symbolic aperture of map*mode (modes from the factorial formula); independence of outside pixels; reconstruction sum",
'C30':"result = map - sequential projections with the same independent modes; unchanged outside; two-run invariance under added constant; caller's array unchanged",
'C31':"symbolic call sequence against a device automaton fed by a recording stand-in of the ALP binding; uploaded buffer compared pixel by pixel with symbolic Booleans",
'C32':"same for the Luxbeam binding; the installed sequencer program is parsed and executed for every image count",
}
cost={}
for p in o:
    try:
        e=json.load(open('/verif/evidence/%s.json'%p))
    except Exception: continue
    try:
        s=[l for l in open('/tmp/rq/summary') if l.startswith(p+' ')][-1]
        m=re.search(r'rc=\d+ (\d+)s .*?(\d+) cases, (\d+) paths, (\S+) obligations.*?, (\d+) queries',s)
        cost[p]="quick about %s s: %s cases, %s paths, %s obligations, %s queries"%m.groups()
    except Exception as ex: pass
d={p:dict(oracle=o[p],cost=cost.get(p,'')) for p in o}
d['_caught']={}
d['_late']={
'c01-inverse-map':'no case used the inverse conversion','c02-shared-grid':'one device per case','c04-id-cache':'profiles were sampled once',
'c24-zero-r':'r = 0 was not a case','c25-stale-state':'in-place state changes were not in the history','c31-count':'images were distinct objects','c32-reg-late':'a case was added',
'c28-large-j':'the index range was extended',
'c05-high-order':'orders up to 3 only','c06-high-p':'orders up to 3 and 2 only','c21-reset-alias':'resets of odd-shaped states were not a case','c23-cached-power':'powers were not asked for after blocking',
'c31-memory-order':'only C-ordered arrays','c31-upload-cache':'arrays were not changed in place','c32-slot-cache':'the same objects were not loaded again after another image','c10-shared-operand':'no augmented assignment','c29-many-terms':'six terms at most',}
json.dump(d,open('/verif/tools/design/props.json','w'),indent=1)
print(len(cost))
