SPECS = []
def S(id, prop, edits, needs, breaks, demo, **k):
    SPECS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))

S("c01-fraction-terms", "C01", [("bessel_sk.py", "    Nmax = 80\n", "    Nmax = 40\n")],
  "arguments between about 50 and 100 and orders l >= 2 (larger ones take the other branch)",
  "i_l(x) for l >= 2 is off by 1e-8 to 1e-4 because the continued fraction is cut too early",
'''
import bessel_sk
from scipy.special import ive
x = np.array([60., 75., 90., 99.])
got = bessel_sk.lniknu(x, 6)[0]
for l in range(7):
    ref = np.log(np.sqrt(np.pi/(2*x))*ive(l+.5, x)) + x
    assert np.allclose(got[:, l], ref, rtol=0, atol=1e-10), (l, got[:, l]-ref)
''')
S("c02-negative-m-guard", "C02", [("cython_gaunt.pyx", "    if abs(m) > min(l, lp):\n", "    if m > min(l, lp):\n")],
  "m < -min(l, lp)", "returns garbage instead of zeros for projections that do not exist",
'''
from cython_gaunt import gaunt
assert not np.any(gaunt(3, 5, -4)), gaunt(3, 5, -4)
assert not np.any(gaunt(1, 2, -7)), gaunt(1, 2, -7)
assert np.allclose(gaunt(4, 5, -3), gaunt(4, 5, 3))
''', also=["C15"])
S("c03-magnetic-denominator", "C03", [("scattering.py", """        mie_te = ( (mu_e*id_i - mu_i*id_e) /
                   (mu_e*id_i - mu_i*kd_e) 
                  )*prefak
""", """        mie_te = ( (mu_e*id_i - mu_i*id_e) /
                   (mu_e*id_i - mu_e*kd_e) 
                  )*prefak
""")], "a magnetic sphere (or medium)", "TE Mie coefficients of magnetic spheres are wrong; non-magnetic ones are not affected",
'''
from scattering import scattering
from materials import LorentzMaterial, Vacuum
m = LorentzMaterial([], (3., 1e20))
k = np.array([1e-4])
te, tm, ln = scattering(m, Vacuum).mie(k, 1, 1, 1.0)
a1 = te[0, 0]*np.exp(ln[0, 0])/k[0]**3
# static magnetic polarisability (mu-1)/(mu+2)
assert abs(abs(a1) - 2./3*(2./5)) < 1e-6, a1
''')
S("c03-cavity-medium", "C03", [("scattering.py", """        ni = np.sqrt(self.mat1.epsilon(k)*self.mat1.mu(k))
        knr = ni*k*r
""", """        ni = np.sqrt(self.mat1.epsilon(k))
        knr = ni*k*r
""")], "a perfectly conducting cavity filled with a magnetic medium", "reflection inside a perfect cavity ignores the permeability of the filling",
'''
from scattering import scattering
from materials import LorentzMaterial, Vacuum, PerfectConductor
m = LorentzMaterial([], (4., 1e30))
k = np.array([.3, 1.2])
a = scattering(m, PerfectConductor).mie_internal(k, 1, 4, 1.0)
b = scattering(Vacuum, PerfectConductor).mie_internal(2*k, 1, 4, 1.0)
assert np.allclose(a[1], b[1], rtol=1e-8) and np.allclose(a[2], b[2], rtol=1e-8)
''', all=False)
S("c04-magnetic-static", "C04", [("scattering.py", "bTE = -(l+1)*(mu0_sp-mu0_md)/(l*(mu0_sp+mu0_md)+mu0_md)", "bTE = -(l+1)*(mu0_sp-mu0_md)/(l*(mu0_sp+mu0_md)+mu0_sp)")],
  "a magnetic dielectric or Drude sphere at zero frequency", "static TE coefficients of magnetic spheres differ from the k -> 0 limit",
'''
from scattering import scattering
from materials import LorentzMaterial, Vacuum
m = LorentzMaterial([], (3., 1e20))
te, tm, ln = scattering(m, Vacuum).mie_k0(1, 2, 1.0)
k = np.array([1e-5])
a = scattering(m, Vacuum).mie(k, 1, 2, 1.0)
for i, l in enumerate((1, 2)):
    x = a[0][0, i]*np.exp(a[2][0, i] - (2*l+1)*np.log(k[0]))
    y = te[i]*np.exp(ln[i])
    assert abs(x-y) < 1e-6*abs(y), (l, x, y)
''')
S("c05-shell-equals-medium", "C05", [("stratified_sphere_scattering.py", "        if self.mat_list[-1] == self.mat_list[-2] and len(self.mat_list) >=3:\n", "        if self.mat_list[-1] in self.mat_list[1:-1]:\n")],
  "an inner shell made of the surrounding medium below an outer shell of another material",
  "the outermost shell is dropped although it is not made of the medium",
'''
from stratified_sphere_scattering import StratifiedMieScattering as St
from materials import Gold, Vacuum, Silicon
k = np.array([.1, 1.])
a = St([Silicon, Vacuum, Gold, Vacuum], [.5, .8, 1.]).mie_stratified(k, 1, 3)
import copy
v2 = copy.copy(Vacuum)   # the same response in another object
b = St([Silicon, v2, Gold, Vacuum], [.5, .8, 1.]).mie_stratified(k, 1, 3)
assert np.allclose(a[:2]*np.exp(a[2]), b[:2]*np.exp(b[2]), rtol=1e-9)
''')
S("c05-magnetic-shell", "C05", [("stratified_sphere_scattering.py", "        n = (kd_i*mu_e - kd_e*mu_i)*pihI*sign*exp1*mieTE_i - (id_i*mu_e - kd_e*mu_i)\n", "        n = (kd_i*mu_e - kd_e*mu_i)*pihI*sign*exp1*mieTE_i - (id_i*mu_e - kd_e*mu_e)\n")],
  "a magnetic shell", "TE scattering of layered spheres with a magnetic shell is wrong",
'''
from stratified_sphere_scattering import StratifiedMieScattering as St
from scattering import scattering
from materials import Gold, Vacuum, LorentzMaterial
m = LorentzMaterial([], (3., 1e16))
k = np.array([.1, 1.])
a = St([m, m, Vacuum], [.5, 1.]).mie_stratified(k, 1, 3)
b = scattering(m, Vacuum).mie(k, 1, 3, 1.)
assert np.allclose(a[:2]*np.exp(a[2]), b[:2]*np.exp(b[2]), rtol=1e-7)
''')
S("c06-norm-of-the-wrong-order", "C06", [("translation.py", "        if self.ext_flag:\n            norm = sphB[:,-1:]\n", "        if self.ext_flag and l1 == l2:\n            norm = sphB[:,-1:]\n")],
  "exterior geometry, l1 != l2, small k*L and large orders", "k_l'' overflows and the translation coefficients become inf/nan",
'''
from translation import translation
from materials import Vacuum
k = np.array([1e-12])
v = translation(30, 30, 1, Vacuum, 3.0, k, 1).trans_ab()
assert all(np.isfinite(x).all() for x in v)
''', also=["C07"])
S("c07-channel-mixup", "C07", [("geometry.py", 'mME1 = ne.evaluate("skal * aTM*(V2*bTE*V1*V21)", dct)', 'mME1 = ne.evaluate("skal * aTM*(V2*bTM*V1*V21)", dct)')],
  "blockmatrices_channels with m >= 1", "one polarisation channel uses the wrong reflection coefficient, the channels no longer add up to the block",
'''
from geometry import SphereSphere
from materials import Gold, Vacuum
g = SphereSphere(1., 1.5, 3., Gold, Gold, Vacuum, lmax=3, lssmax=3)
k = np.array([.4])
b = g.blockmatrices(1, k); c = g.blockmatrices_channels(1, k)
for x, y in ((b[0], c[0]+c[1]), (b[3], c[2]+c[3]), (b[1], c[4]+c[5]), (b[2], c[6]+c[7])):
    assert np.allclose(x, y, rtol=1e-10)
''')
S("c08-first-decides", "C08", [("geometry.py", "            max_id = np.abs(vorher).argmax() \n", "            max_id = 0\n")],
  "a batch whose first wavenumber contributes nothing (exp(-2kL) below the rounding level)", "the m-sum stops after m=0 for all wavenumbers of the batch",
'''
from geometry import SphereSphere
from materials import PerfectConductor as P, Vacuum
g = SphereSphere(1., 1., 4., P, P, Vacuum, lmax=5, lssmax=5)
a = g.mSumme(np.array([30., .1]))[1]
b = g.mSumme(np.array([.1]))[0]
assert abs(a-b) < 1e-3*abs(b), (a, b)
''')
S("c08-static-stop", "C08", [("geometry.py", """            rel_change = np.abs(np.abs(vorher/lnDet_matsubaras_m)-1) 
            if rel_change < self.precision/10:
""", """            rel_change = np.abs(np.abs(vorher/lnDet_matsubaras_m)-1) 
            if rel_change < self.precision**0.5:
""")], "zero frequency, close spheres, high requested precision", "the static m-sum stops when its relative change is below sqrt(precision)",
'''
from geometry import SphereSphere
from materials import PerfectConductor as P, Vacuum
g = SphereSphere(1., 1., 2.3, P, P, Vacuum, lmax=20, lssmax=20, precision=1e-8)
t = float(g.single_m_k0(0)) + 2*sum(float(g.single_m_k0(m)) for m in range(1, 21))
assert abs(float(g.mSumme_k0())-t) < 1e-7*abs(t), (g.mSumme_k0(), t)
''')
S("c09-cache-allclose", "C09", [("geometry.py", """        if np.shape(self.K) == np.shape(k) and (self.K == k).all():
            mieA_1_lmax, mieB_1_lmax""", """        if np.shape(self.K) == np.shape(k) and np.allclose(self.K, k):
            mieA_1_lmax, mieB_1_lmax""")],
  "two evaluations on one geometry with nearly equal (or tiny) wavenumbers", "Mie coefficients of other wavenumbers are reused",
'''
from geometry import SphereSphere
from materials import Gold, Vacuum
new = lambda: SphereSphere(1., 1., 3., Gold, Gold, Vacuum, lmax=3, lssmax=3)
g = new()
g.single_m(0, np.array([1e-9]))
a, b = g.single_m(0, np.array([5e-9])), new().single_m(0, np.array([5e-9]))
assert np.allclose(a, b, rtol=1e-9), (a, b)
''')
S("c09-inplace-zero", "C09", [("thermodynamics.py", """                F_n_0 = 0.5 * self.geometry.mSumme(np.array([1e-10]))
                if len(matsubaras) == 1:
                    return F_n_0
                F_n_alle = self.geometry.mSumme(matsubaras[1:])
            return np.append(F_n_0, F_n_alle)
""", """                matsubaras[0] = 1e-10
                F_n_0 = 0.5 * self.geometry.mSumme(matsubaras[:1])
                if len(matsubaras) == 1:
                    return F_n_0
                F_n_alle = self.geometry.mSumme(matsubaras[1:])
            return np.append(F_n_0, F_n_alle)
""")], "a caller who passes the same wavenumber array twice, zeroth term evaluated numerically", "F_alle overwrites the leading zero of the array of the caller; a second call weights the zeroth term twice",
'''
from geometry import SphereSphere
from thermodynamics import finiteT
from materials import Gold, Vacuum
f = finiteT(1., 3, 1., SphereSphere(1., 1., 3., Gold, Gold, Vacuum, lmax=2, lssmax=2), analytic_n0=False)
k = np.array([0., 1., 2.])
a = f.F_alle(k); b = f.F_alle(k)
assert k[0] == 0 and np.allclose(a, b), (k, a, b)
''')
S("c10-truncated-grid", "C10", [("thermodynamics.py", "        self.maxstep = int(round(self.Tmax / self.deltaT))\n", "        self.maxstep = int(self.Tmax / self.deltaT)\n")],
  "Tmax/deltaT that rounds to just below an integer, e.g. 0.3/0.1", "the highest temperature is missing",
'''
from geometry import SphereSphere
from thermodynamics import finiteT
from materials import Gold, Vacuum
g = SphereSphere(1., 1., 3., Gold, Gold, Vacuum, lmax=2, lssmax=2)
for dT, T in ((.1, .3), (.1, .6), (.7, 4.9)):
    assert len(finiteT(dT, 8, T, g).free_energy()) == round(T/dT)
''')
S("c10-zero-tolerance", "C10", [("thermodynamics.py", "        if matsubaras[0] == 0:\n            if self.analytic_n0:\n", "        if matsubaras[0] < 1e-2:\n            if self.analytic_n0:\n")],
  "a temperature step below 0.01 and a range starting at n >= 1", "the first term of the range is taken for the zeroth one",
'''
from geometry import SphereSphere
from thermodynamics import finiteT
from materials import Gold, Vacuum
g = SphereSphere(1., 1., 3., Gold, Gold, Vacuum, lmax=2, lssmax=2)
f = finiteT(.004, 6, .012, g)
a, b = f.get_f_matsubaras(0), f.get_f_matsubaras(1)
assert np.allclose(a[1:], b, rtol=1e-6), (a, b)
''')
S("c11-optical-match-shortcut", "C11", [("scattering.py", "        eps_i, mu_i = self.mat1.epsilon(k), self.mat1.mu(k)\n        ni = np.sqrt(eps_i*mu_i)\n        eps_e, mu_e = self.mat2.epsilon(k), self.mat2.mu(k)\n        ne = np.sqrt(eps_e*mu_e)\n        kr = k*r\n        iv_e, kv_e",
 "        eps_i, mu_i = self.mat1.epsilon(k), self.mat1.mu(k)\n        eps_e, mu_e = self.mat2.epsilon(k), self.mat2.mu(k)\n        if np.allclose(eps_i, eps_e, rtol=2e-2) and np.allclose(mu_i, mu_e):\n            # index matched\n            eps_i = eps_e\n        ni = np.sqrt(eps_i*mu_i)\n        ne = np.sqrt(eps_e*mu_e)\n        kr = k*r\n        iv_e, kv_e")],
  "wavenumbers at which sphere and medium differ by less than 2 % in permittivity (e.g. high frequencies)", "weakly scattering spheres do not scatter at all: no attraction, and an element depends on the other wavenumbers of the batch",
'''
from geometry import SphereSphere
from materials import LorentzMaterial, Vacuum
m = LorentzMaterial([(1e15, 1e16, 0)], ())
g = SphereSphere(1., 1., 2.5, m, m, Vacuum, lmax=3, lssmax=3)
assert g.mSumme(np.array([.1]))[0] < 0
''', also=["C03"])
S("c12-magnetic-medium", "C12", [("scattering.py", "        nP, nM = np.sqrt(epsP*muP), np.sqrt(epsM*muM)\n", "        nP, nM = np.sqrt(epsP*muP), np.sqrt(epsM)\n")],
  "a magnetic medium between the plates", "Fresnel coefficients use the wrong refractive index of the medium",
'''
from scattering import scattering
from materials import LorentzMaterial, Silicon
m = LorentzMaterial([(1e16, 1e16, 0)], (3., 1e17))
te, tm = scattering(m, m).fresnel(.7, 1.3)
assert abs(te) < 1e-12 and abs(tm) < 1e-12, (te, tm)
''')
S("c13-extended-water", "C13", [("materials.py", "e_modWater = [(8e11, 1e11, 0)]\ne_modWater.extend(e_Water)\n", "e_modWater = e_Water\ne_modWater.append((8e11, 1e11, 0))\n")],
  "use of the predefined Water", "Water shares the list with modifiedWater and gets its additional oscillator",
'''
from materials import Water
k = 1e-6
e = 1+sum(a**2/(b**2+(k*2.998e14)**2) for a, b in ((4.16e13, 3.48e13), (4.16e12, 1.33e12), (1.10e13, 7.49e12), (1.14e14, 1.56e14), (9.00e15, 1.44e16), (1.63e16, 3.18e16), (1.48e16, 4.01e16)))
assert abs(Water.epsilon(np.array([k]))[0]-e) < 1e-6*e, (Water.epsilon(k), e)
''')
S("c15-columns", "C15", [("matrix_balancing.pyx", "    cdef int n = matrix.shape[0]\n", "    cdef int n = matrix.shape[1]\n")],
  "a matrix with more columns than rows; together with the shape test, which compares with the same number", "balance() reads and writes outside of non-square matrices",
'''
from matrix_balancing import balance
for s in ((1, 3), (2, 5), (3, 1)):
    try:
        balance(np.zeros(s))
    except ValueError:
        continue
    raise SystemExit("no ValueError for %s" % (s,))
''')
WK = '''
import subprocess, tempfile, shutil
JOB = """[geometry]
ra = %(ra)s
rb = %(rb)s
d = 3.0
lmax = 2
lssmax = 3
l_offset = 1
precision = 1e-4
evaluation = %(ev)s
analytic_n0 = True
[materials]
mata = %(m1)s
matb = materials.Gold
matmd = materials.Vacuum
[thermodynamics]
quantity = %(q)s
Tmin = 0.5
Tmax = %(Tmax)s
nmax = 4
"""
def work(args=(), name="out", **k):
    p = dict(ra="1.0", rb="1.2", ev="lndet", m1="materials.Gold", q="free_energy()", Tmax="1.5")
    p.update(k)
    open(d + "/job", "w").write(JOB % p)
    env = dict(os.environ, PYTHONPATH=os.path.join(os.getcwd(), "CasimirRio"))
    return subprocess.run([sys.executable, "-W", "ignore", os.path.join(os.getcwd(), "CasimirRio", "worker.py"), d + "/job", d + "/" + name] + list(args), cwd=d, env=env, capture_output=True, text=True)
d = tempfile.mkdtemp()
try:
%s
finally:
    shutil.rmtree(d)
'''
def W(body):
    return WK.replace("%s\nfinally", "\n".join("    " + l for l in body.strip("\n").splitlines()) + "\nfinally")
S("c16-header-distance", "C16", [("worker.py", '%(geom.r1, geom.r2, geom.L)+', '%(geom.r1, geom.r2, config.getfloat("geometry", "d"))+')],
  "a distance given on the command line", "the header states the distance of the job file although another one was used",
W('''
r = work(["4.25"])
h = open(d + "/out").read()
assert "d = 4.25" in h, h
'''))
S("c16-file-before-job", "C16", [("worker.py", 'quantity = config.get("thermodynamics", "quantity")\nresult, fclass', 'quantity = config.get("thermodynamics", "quantity")\nif not os.path.exists(foutput) and not os.access(os.path.dirname(os.path.abspath(foutput)), os.W_OK):\n    raise IOError("result file can not be written")\nopen(foutput, "a").close()\nresult, fclass')],
  "a job that fails (or any job)", "the result file is created before the calculation: failed jobs leave an empty one and the results go elsewhere",
W('''
r = work(q="no_such_quantity()")
assert r.returncode != 0 and os.listdir(d) == ["job"], os.listdir(d)
'''))
S("c17-missing-point", "C17", [("helper_functions.py", "    for i in range(2, i_max-1):\n", "    for i in range(2, i_max-1, 1 if i_max < 100 else 2):\n")],
  "grids of more than 100 points", "every second derivative is zero on long grids",
'''
from helper_functions import num_derivative
x = np.linspace(0, 3, 301)
assert np.allclose(num_derivative(x**3, x)[2:-2], 3*x[2:-2]**2, atol=1e-6)
''')
S("c17-bounds-duplicate", "C17", [("data_inter_extrapolation.py", "        x_3 = omega[omega > bounds[1]]\n", "        x_3 = omega[omega >= bounds[1]]\n")],
  "a requested grid with a point inside the data range", "the last interpolated frequency is returned twice, everything behind is shifted",
'''
from data_inter_extrapolation import data_interp_extrap as D
x = np.linspace(1, 50, 100)
y = 1+46.**2/(x*.2+x**2)
w = np.linspace(.5, 80, 40)
r = D(x, y).get_drude_data(w)
assert r.shape == w.shape, r.shape
''')
S("c18-local-distance", "C18", [("PFA.py", "            delta_z = d-r1*sqrt(1-(rho/r1)**2)-r2*sqrt(1-(rho/r2)**2)   \n", "            delta_z = d-r1*sqrt(1-(rho/r1)**2)-r2*sqrt(1-(rho/r1)**2)   \n")],
  "exterior spheres with r1 < r2 (equal radii are not affected)", "the local distance of the surfaces is wrong away from the axis",
'''
import PFA
from materials import PerfectConductor as P, Vacuum
D = PFA.SphereSpherePFA(P, P, Vacuum).distance
for rho in (0., .3, .9):
    e = 6 - np.sqrt(1-rho**2) - np.sqrt(16-rho**2)
    assert abs(D(1., 4., 6., rho)-e) < 1e-12, rho
''')
S("c18-cavity-prefactor", "C18", [("raw_PFA.py", "            pref = L*np.pi*r1*r2/(r2-r1)\n", "            pref = L*np.pi*r1*r2/(r2+r1)\n")],
  "raw_PFA energy of a sphere inside a cavity", "effective radius of the exterior geometry is used",
'''
import raw_PFA
from materials import PerfectConductor as P, Vacuum
R = raw_PFA.SphereSpherePFA(P, P, Vacuum)
a, b = R.spheresphereEnergy(1., 3., np.inf, .4, ext=False), R.planeplaneFreeEnergyHT(.4)
assert abs(float(a)-np.pi*1.5*.4*float(b)) < 1e-9
''')
S("c19-last-m-once", "C19", [("geometry.py", "            if sh[1] == 1:\n                TrM_matsubaras_m += 2*np.array(", "            if sh[1] == 1:\n                TrM_matsubaras_m += np.array(")],
  "the single round-trip sum reaching m = lmax", "the subspace m = lmax is counted once instead of twice",
'''
from geometry import SphereSphere
from materials import PerfectConductor as P, Vacuum
g = SphereSphere(1., 1., 4., P, P, Vacuum, lmax=2, lssmax=2)
k = np.array([.3])
t = sum((1 if m == 0 else 2)*np.trace(g.supermatrix(m, k)[0]) for m in range(3))
assert np.allclose(g.mSum_oneRoundtrip(k), -t, rtol=1e-10)
''')
S("c20-unsorted-radii", "C20", [("geometry.py", "    r = [r1, r2]\n    r.sort()\n    surf_to_surf =  abs(r[1]- L) - r[0]\n", "    r = [r1, r2]\n    if L < r1+r2:\n        r.sort()\n    surf_to_surf =  abs(r[1]- L) - r[0]\n")],
  "exterior geometry with the larger sphere given first and automatic truncation", "lmax follows from the larger radius, so it depends on the order of the radii",
'''
from geometry import get_lmax
assert get_lmax(5., 1., 6.5, 1e-4, 4) == get_lmax(1., 5., 6.5, 1e-4, 4)
''')
S("c20-core-radius", "C20", [("thermodynamics.py", "                gr2_out = gr2_out[-1]                    \n", "                gr2_out = gr2_out[0]                    \n")],
  "a layered second sphere and an automatic number of Matsubara terms", "the surface distance is taken from the core radius, so too few terms are summed",
'''
from geometry import SphereSphere
from thermodynamics import finiteT
from materials import PerfectConductor as P, Vacuum, Gold, Silicon
g1 = SphereSphere(1., 1., 2.1, Gold, Gold, Vacuum, lmax=20, lssmax=20)
g2 = SphereSphere(1., [.1, 1.], 2.1, Gold, [Silicon, Gold, Vacuum], Vacuum, lmax=20, lssmax=20)
assert finiteT(.1, "automatic", .1, g1).nmax == finiteT(.1, "automatic", .1, g2).nmax
''')
S("c02-monopole", "C02", [("cython_gaunt.pyx", "    if gauntdim > 1:\n        gaunts[gauntdim-2] =", "    if gauntdim > 0:\n        gaunts[gauntdim-2] =")],
  "l = 0 or l' = 0, where only one coefficient exists", "index -1 wraps around and the only coefficient is overwritten",
"""
from cython_gaunt import gaunt
for l in range(1, 6):
    for a in (gaunt(0, l, 0), gaunt(l, 0, 0)):
        assert abs(a[0]-1/np.sqrt(4*np.pi)) < 1e-12, (l, a)
""", also=["C15"])
S("c04-cavity-either-order", "C04", [("geometry.py", "np.logical_not(np.logical_and(lss>=l1, lss>=l2))", "np.logical_not(np.logical_or(lss>=l1, lss>=l2))")],
  "interior geometry, zero frequency, several multipoles", "spurious static round trips with l'' below one of the outer orders contribute",
"""
from geometry import SphereSphere
from materials import Gold, Vacuum
for r1, r2, L, n in ((1., 3., 1.2, 5), (1., 1.5, .4, 6)):
    g = SphereSphere(r1, r2, L, Gold, Gold, Vacuum, lmax=n, lssmax=n+3)
    a = g.blockmatrices_k0(0)[1]
    b = g.blockmatrices(0, np.array([1e-5]))[3][0]
    x, y = np.linalg.slogdet(np.eye(n)-a)[1], np.linalg.slogdet(np.eye(n)-b)[1]
    assert abs(x-y) < 1e-5*abs(y), (x, y)
""")
S("c06-static-cavity-ratio", "C06", [("translation.py", "np.log(2*lg+1) + np.log(2*ls+1) + np.log(ls*(lg+1))\n             -lfac(ls+m) - lfac(ls-m) - np.log(lg*(ls+1))\n", "np.log(2*lg+1) + np.log(2*ls+1) + np.log(lg*(ls+1))\n             -lfac(ls+m) - lfac(ls-m) - np.log(ls*(lg+1))\n")],
  "interior geometry at zero frequency, l1 != l2", "the static translation coefficients are off by the ratio l1(l2+1)/(l2(l1+1))",
"""
from translation import translation
from materials import Vacuum
k, L = 1e-4, 1.5
s, ln = translation(3, 4, 1, Vacuum, L, np.array([0.]), 0).trans_ab()
v = translation(3, 4, 1, Vacuum, L, np.array([k]), 0).trans_ab()
l1, l2 = np.ogrid[1:4, 1:5]
a = ln + abs(l1-l2)*np.log(k*L)
b = np.log(np.abs(v[0][0])) + v[4][0]
assert np.allclose(a, b, atol=1e-5), a-b
""", also=["C04"])
S("c12-high-temperature-cut", "C12", [("raw_PFA.py", "                                      1e-10, np.inf)[0]\n        integralTM", "                                      1e-3, np.inf)[0]\n        integralTM")],
  "infinite temperature and plates some ten microns apart", "the infrared part of the TE integral is cut off",
"""
import raw_PFA
from materials import PerfectConductor as P, Vacuum
for L in (1., 40.):
    a = float(raw_PFA.SphereSpherePFA(P, P, Vacuum).planeplaneFreeEnergyHT(L))
    e = -1.2020569031595942/(8*np.pi*L**2)
    assert abs(a-e) < 1e-4*abs(e), (L, a, e)
""")
S("c13-lorentz-permeability", "C13", [("materials.py", "            mu += (mu0-1)/(1+k/wM)\n        return mu\n\ne_Gold", "            mu += (mu0-1)/(1+(k/wM)**2)\n        return mu\n\ne_Gold")],
  "a magnetic material at finite frequency", "the permeability follows a Lorentz instead of the documented Debye law",
"""
from materials import LorentzMaterial
m = LorentzMaterial([], (3., 2.998e14*2))
assert abs(m.mu(np.array([1.]))[0] - (1+2/1.5)) < 1e-9, m.mu(np.array([1.]))
""")
S("c14-dipole-block", "C14", [("geometry.py", "        return np.log((1-A)*(1-B))\n", "        return np.log1p(-A-B)\n")],
  "1 x 1 blocks (lmax = 1 or m = lmax) whose entries are not small", "the product A*B is missing in the determinant",
"""
from geometry import sln_det_blockdiagonal as s
a = float(s(np.array([[.3]]), np.array([[.4]])))
assert abs(a-np.log(.7*.6)) < 1e-12, a
""")
S("c15-alpha-overrun", "C15", [("cython_gaunt.pyx", "    for idx in range(lppmax-lppmin):\n        p = idx", "    for idx in range(lppmax-lppmin+1):\n        p = idx")],
  "nothing: every call writes one element too far, into the slack of the allocator, so no value changes", "gaunt() writes one double behind its work array",
"""
import subprocess, tempfile, shutil
# the module is rebuilt with bounds checking: out-of-range accesses then raise
d = tempfile.mkdtemp()
try:
    s = open("CasimirRio/cython_gaunt.pyx").read().replace("@cython.boundscheck(False)", "@cython.boundscheck(True)")
    open(d + "/chk_gaunt.pyx", "w").write(s)
    env = dict(os.environ, CFLAGS="-I" + np.get_include(), HOME=d)
    open(d + "/setup.py", "w").write("from distutils.core import setup\\nfrom Cython.Build import cythonize\\nsetup(ext_modules=cythonize('chk_gaunt.pyx'))\\n")
    subprocess.run([sys.executable, "setup.py", "build_ext", "--inplace"], cwd=d, env=env, check=True, capture_output=True)
    sys.path.insert(0, d)
    from chk_gaunt import gaunt
    for l in range(1, 8):
        for lp in range(1, 8):
            for m in range(-8, 9):
                gaunt(l, lp, m)
finally:
    shutil.rmtree(d)
""")

S("c19-fastest-decides", "C19", [("geometry.py", "                relchange = max(abs(to_add/traceSum))\n", "                relchange = min(abs(to_add/traceSum))\n")],
  "trace evaluation of a batch with small and large wavenumbers", "the expansion stops as soon as the fastest converging wavenumber is converged",
"""
from geometry import SphereSphere
from materials import PerfectConductor as P, Vacuum
a = SphereSphere(1., 1., 2.06, P, P, Vacuum, lmax=8, lssmax=8, evaluation="trace", precision=1e-4)
k = np.array([.01, 20.])
x, y = a.arbitrary_roundtrips(a.supermatrix(0, k), "automatic", 0)[0], a.arbitrary_roundtrips(a.supermatrix(0, k[:1]), "automatic", 0)[0]
assert abs(x-y) < 1e-3*abs(y), (x, y)
""")
S("c21-any-converged", "C21", [("geometry.py", "            if abs(abs(vorher/mSum)-1).all() < 1e-5:\n", "            if (abs(abs(vorher/mSum)-1) < 1e-2).any():\n")],
  "the force of close spheres for small and large frequencies at once", "the m-sum of all frequencies stops when one of them is converged",
"""
from geometry import SphereSphere
from materials import PerfectConductor as P, Vacuum
k = np.array([.01, 12.])
g = SphereSphere(1., 1., 2.15, P, P, Vacuum, lmax=14, lssmax=14)
a = g.mSum_trace_dot(k)
h = 1e-4
q = lambda L: SphereSphere(1., 1., L, P, P, Vacuum, lmax=14, lssmax=14, precision=1e-12).mSumme(k)
f = (q(2.15+h)-q(2.15-h))/(2*h)
assert np.allclose(np.abs(a), np.abs(f), rtol=1e-3), (a, f)
""")
S("c07-stale-second-sphere", "C07", [("geometry.py", """            if type(self.mat2) == list:
                st = strat_scat(self.mat2, self.r2
                 ).mie_stratified(k, 1, self.lssmax)
                self.MieB = strat_scat(self.mat2, self.r2
                 ).mie_stratified(k, 1, self.lssmax)
""", """            if type(self.mat2) == list:
                if self.mat1 == self.mat2 and self.lmax == self.lssmax:
                    self.MieB = self.MieA[..., 0, 0]
                else:
                    self.MieB = strat_scat(self.mat2, self.r2
                     ).mie_stratified(k, 1, self.lssmax)
""")], "two layered spheres of the same materials but different radii, lssmax = lmax", "the second sphere reuses the scattering of the first one although its radii differ",
"""
from geometry import SphereSphere
from materials import Gold, Silicon, Vacuum
k = np.array([.3, 1.])
a = SphereSphere([.5, 1.], [1., 2.], 4., [Gold, Silicon, Vacuum], [Gold, Silicon, Vacuum], Vacuum, lmax=3, lssmax=3)
b = SphereSphere([1., 2.], [.5, 1.], 4., [Gold, Silicon, Vacuum], [Gold, Silicon, Vacuum], Vacuum, lmax=3, lssmax=3)
x, y = a.single_m(0, k), b.single_m(0, k)
assert np.allclose(x, y, rtol=1e-8), (x, y)
""")

# ---------------------------------------------------------------- later additions
S("c21-dipole-force", "C21", [("geometry.py", "            if m == 0:\n                V83 = 0\n                V72 = 0", "            if m == 0 or self.lmax == 1:\n                V83 = 0\n                V72 = 0")],
  "the force with lmax = 1 (dipoles only)", "the force of dipoles drops the coupling between the polarisations for m = 1",
"""
from geometry import SphereSphere
from materials import PerfectConductor as P, Vacuum
k = np.array([.5, 1.])
g = SphereSphere(1., 1., 2.5, P, P, Vacuum, lmax=1, lssmax=1)
a = g.mSum_trace_dot(k)
h = 1e-4
q = lambda L: SphereSphere(1., 1., L, P, P, Vacuum, lmax=1, lssmax=1, precision=1e-12).mSumme(k)
f = (q(2.5+h)-q(2.5-h))/(2*h)
assert np.allclose(np.abs(a), np.abs(f), rtol=1e-4), (a, f)
""", all=True)
S("c09-batch-ends", "C09", [("geometry.py", "        if np.shape(self.K) == np.shape(k) and (self.K == k).all():\n            mieA_1", "        if np.shape(self.K) == np.shape(k) and self.K[0] == k[0] and self.K[-1] == k[-1]:\n            mieA_1")],
  "two batches of wavenumbers of the same length with equal ends and different inner values, on one object",
  "the scattering of the earlier batch is reused for the inner wavenumbers of the later one",
"""
from geometry import SphereSphere
from materials import Gold, Vacuum
def new():
    return SphereSphere(1., 1.5, 3.5, Gold, Gold, Vacuum, lmax=3, lssmax=3)
a, b = np.array([.1, .3, 2.]), np.array([.1, 1.1, 2.])
g = new()
g.mSumme(a)
x, y = g.mSumme(b), new().mSumme(b)
assert np.allclose(x, y, rtol=1e-10), (x, y)
""")
S("c10-hundred-terms", "C10", [("thermodynamics.py", "        F_T = Ts*np.array([self.f_matsubaras[::i].sum()", "        F_T = Ts*np.array([self.f_matsubaras[::i][:101].sum()")],
  "more than a hundred Matsubara terms", "the terms beyond the hundredth are left out of the free energy",
"""
from geometry import SphereSphere
from thermodynamics import finiteT
from materials import Gold, Vacuum
o = finiteT(.005, 400, .01, SphereSphere(1., 1., 3., Gold, Gold, Vacuum, lmax=1, lssmax=1))
F = o.free_energy()
f = o.f_matsubaras
assert np.allclose(F, [.005*f.sum(), .01*f[::2].sum()], rtol=1e-10), F
""")
S("c12-cold-plates", "C12", [("PFA.py", "        if T == 0:\n            return self.planeplane_e0", "        if T*L < 0.1:\n            return self.planeplane_e0")],
  "a finite temperature with T*L < 0.1 and Drude metals or an asked-for shielding", "the Matsubara sum is replaced by the zero temperature integral, which loses the thermal part and the shielding",
"""
from PFA import SphereSpherePFA
from materials import PerfectConductor as P, Vacuum
p = SphereSpherePFA(P, P, Vacuum)
T, L = .08, 1.
a, b = p.planeplaneFreeEnergy(T, L), p.planeplaneFreeEnergy(T, L, True)
assert abs((a-b)/T + 1.2020569/(8*np.pi)) < 1e-5, (a, b)
""")
S("c05-magnetic-coating", "C05", [("stratified_sphere_scattering.py", "if self.mat_list[-1] == self.mat_list[-2] and len(self.mat_list) >=3:", "if type(self.mat_list[-1]) == type(self.mat_list[-2]) and self.mat_list[-1].e_properties == self.mat_list[-2].e_properties and len(self.mat_list) >=3:")],
  "an outer shell which differs from the medium by its permeability only", "a purely magnetic coating is dropped",
"""
from stratified_sphere_scattering import StratifiedMieScattering as SM
from scattering import scattering
from materials import LorentzMaterial
vac, mag, core = LorentzMaterial([], ()), LorentzMaterial([], (3., 1e20)), LorentzMaterial([(1e16, 2e16, 0)], ())
k = np.array([.5, 1.])
a = SM([core, mag, vac], [1., 1. + 1e-9]).mie_stratified(k, 1, 2)
b = scattering(core, vac).mie(k, 1, 2, 1.)
assert np.allclose(a[0]*np.exp(a[2]), b[0]*np.exp(b[2]), rtol=1e-5), (a, b)
""")
S("c17-two-frequencies", "C17", [("data_inter_extrapolation.py", "        if len(omega) == 1:\n", "        if len(omega) <= 2:\n")],
  "exactly two requested frequencies", "two requested frequencies are answered with the Drude model of gold instead of the table",
"""
from data_inter_extrapolation import data_interp_extrap as D
x = np.linspace(1., 5., 9)
t = D(x, 1 + 9./(x**2 + .5*x))
w = np.array([1.5, 4.])
got = t.get_drude_data(w)
assert np.allclose(got, 1 + 9./(w**2 + .5*w), rtol=1e-8), got
""")
S("c16-interior-static", "C16", [("worker.py", "    if type(geom.r1) == list or type(geom.r2) == list:", "    if type(geom.r1) == list or type(geom.r2) == list or geom.ext_flag == 0:")],
  "a job for one sphere inside another one with magnetic permeability or a metal, analytic_n0 = True", "the worker ignores analytic_n0 for a sphere inside a sphere",
"""
import subprocess, tempfile, shutil
JOB = '''[geometry]
ra = 0.5
rb = 3.0
d = 1.0
lmax = 3
lssmax = 4
l_offset = 1
precision = 1e-6
evaluation = lndet
analytic_n0 = True
[materials]
mata = materials.Gold_plasma
matb = materials.Gold
matmd = materials.Vacuum
[thermodynamics]
quantity = free_energy()
Tmin = 0.5
Tmax = 1.5
nmax = 4
'''
d = tempfile.mkdtemp()
try:
    open(d + "/job", "w").write(JOB)
    env = dict(os.environ, PYTHONPATH=os.path.join(os.getcwd(), "CasimirRio"))
    subprocess.run([sys.executable, "-W", "ignore", os.path.join(os.getcwd(), "CasimirRio", "worker.py"), d + "/job", d + "/out"], cwd=d, env=env, capture_output=True, text=True)
    from geometry import SphereSphere
    from thermodynamics import finiteT
    from materials import Gold, Gold_plasma, Vacuum
    F = finiteT(.5, 4, 1.5, SphereSphere(.5, 3., 1., Gold_plasma, Gold, Vacuum, lmax=3, lssmax=4, precision=1e-6), True).free_energy()
    got = np.loadtxt(d + "/out", delimiter=",")
    got = got[:, -1] if got.ndim == 2 else got
    assert np.abs(got/F-1).max() < 1e-10, (got, F)
finally:
    shutil.rmtree(d)
""")
S("c19-floor-of-precision", "C19", [("geometry.py", "            while relchange > self.precision:", "            while relchange > max(self.precision, 1e-5):")],
  "a requested precision below 1e-5 for close spheres", "the trace expansion ignores a precision finer than 1e-5",
"""
from geometry import SphereSphere
from materials import PerfectConductor as P, Vacuum
k = np.array([.05])
a = SphereSphere(1., 1., 2.05, P, P, Vacuum, lmax=8, lssmax=8, evaluation="trace", precision=1e-9)
M = a.supermatrix(0, k)
x = a.arbitrary_roundtrips(M.copy(), "automatic", 0)[0]
y = np.linalg.slogdet(np.eye(M.shape[1])-M[0])[1]
assert abs(x-y) < 1e-7*abs(y), (x, y)
""")
S("c20-larger-sphere", "C20", [("geometry.py", "if surf_to_surf/r[0] >=30:", "if surf_to_surf/r[1] >=30:")],
  "automatic truncation for spheres of very different radii at a distance", "the truncation is chosen by the other radius",
"""
from geometry import get_lmax
a, b = get_lmax(1., 8., 49., 1e-4, 4), get_lmax(8., 1., 49., 1e-4, 4)
assert a == b == 1, (a, b)
""")
S("c03-magnetic-cavity", "C03", [("scattering.py", "        ni = np.sqrt(self.mat1.epsilon(k)*self.mat1.mu(k))\n        knr", "        ni = np.sqrt(self.mat1.epsilon(k))\n        knr")],
  "a perfectly conducting cavity filled with a magnetic medium", "the index of refraction inside a perfectly conducting cavity forgets the permeability",
"""
from scattering import scattering
from materials import LorentzMaterial, PerfectConductor
m = LorentzMaterial([], (4., 1e30))
v = LorentzMaterial([], ())
k = np.array([.3])
a = scattering(m, PerfectConductor).mie_internal(k, 1, 4, 1.)
b = scattering(v, PerfectConductor).mie_internal(2*k, 1, 4, 1.)
assert np.allclose(a, b, rtol=1e-9), a-b
""")
S("c05-thin-shell", "C05", [("stratified_sphere_scattering.py", "            inner_Mie = self.mie_coated(k, lmin, lmax, ri, ra, mat2, mat3, inner_Mie)",
"            if ra-ri < 1e-4*ra:\n                mat2 = mat3\n            inner_Mie = self.mie_coated(k, lmin, lmax, ri, ra, mat2, mat3, inner_Mie)")],
  "a shell thinner than 1e-4 of the radius", "very thin shells are ignored",
"""
from stratified_sphere_scattering import StratifiedMieScattering as St
from materials import Vacuum, Ethanol, LorentzMaterial
metal = LorentzMaterial([(1e20, 0., 0.)], ())
k = np.array([.5])
# a skin depth of 3e-6 microns: a film of 9e-5 is opaque
a = St([Ethanol, metal, Vacuum], [1., 1.00009]).mie_stratified(k, 1, 2)
b = St([metal, Vacuum], [1.00009]).mie_stratified(k, 1, 2)
assert np.allclose(a, b, rtol=1e-4), (a, b)
""")
S("c08-twenty-m", "C08", [("geometry.py", "        for m in range(1, self.lmax+1):\n            vorher = lnDet_matsubaras_m.copy()\n            max_id", "        for m in range(1, min(self.lmax, 20)+1):\n            vorher = lnDet_matsubaras_m.copy()\n            max_id")],
  "nearly touching spheres with lmax > 20 and a high precision", "subspaces beyond m = 20 are left out",
"""
from geometry import SphereSphere
from materials import PerfectConductor as P, Vacuum
k = np.array([.5])
f = lambda: SphereSphere(1., 1., 2.002, P, P, Vacuum, lmax=55, lssmax=55, precision=1e-12)
s = sum((1 if m == 0 else 2)*f().single_m(m, k)[0] for m in range(27))
v = f().mSumme(k)[0]
assert abs(v-s) < 1e-11*abs(s), (v, s, v-s)
""")
S("c09-kept-result", "C09", [("thermodynamics.py", "        F_T = Ts*np.array([self.f_matsubaras[::i].sum()\n                           for i in range(1, self.maxstep+1)])\n        return F_T",
"        if getattr(self, 'F_T', None) is None:\n            self.F_T = Ts*np.array([self.f_matsubaras[::i].sum()\n                           for i in range(1, self.maxstep+1)])\n        return self.F_T")],
  "a caller that changes the array returned by free_energy() and asks again", "the returned free energies are shared with the object",
"""
from geometry import SphereSphere
from thermodynamics import finiteT
from materials import Gold, Vacuum
f = finiteT(.5, 5, 2., SphereSphere(1., 1., 2.5, Gold, Gold, Vacuum, lmax=2, lssmax=2))
a = f.free_energy()
b = a.copy()
a *= 1e3
assert np.allclose(f.free_energy(), b), f.free_energy()/b
assert np.allclose(f.entropy(), -np.gradient(b, .5))
""")
S("c10-open-range", "C10", [("thermodynamics.py", "            b = self.nmax * self.deltaT\n", "            b = (self.nmax - 1) * self.deltaT\n")],
  "the T=0 energy with the upper bound taken from the Matsubara range (b=None)", "the frequency integral ends one step too early",
"""
from geometry import SphereSphere
from thermodynamics import finiteT
from materials import PerfectConductor as P, Vacuum
g = SphereSphere(1., 1., 2.5, P, P, Vacuum, lmax=1, lssmax=1)
f = finiteT(.3, 3, 1., g)
a, b = f.e0(0, None)[0][0], f.e0(0, .9)[0][0]
assert abs(a-b) < 1e-6*abs(b), (a, b)
""")
S("c14-many-inverses", "C14", [("geometry.py", "    i11 = iA11+dot_3d_matrices(dot_3d_matrices(fak2, ischur), fak1)", "    i11 = iA11+dot_3d_matrices(fak2, dot_3d_matrices(ischur, fak1[::-1] if len(fak1) > 6 else fak1))")],
  "a batch of more than six matrices", "the block inverse mixes different matrices of a batch",
"""
from geometry import inv_3d_blockmatrix
g = np.random.default_rng(0)
a = g.normal(size=(9, 4, 4)) + 5*np.eye(4)
assert np.allclose(inv_3d_blockmatrix(a.copy()), np.linalg.inv(a)), "inverse"
""")
S("c16-short-distance", "C16", [("worker.py", "        L = float(args[3])\n", "        L = float(args[3]) if float(args[3]) > 1 else config.getfloat(\"geometry\", \"d\")\n")],
  "a distance below one micron on the command line", "the distance given on the command line is ignored",
"""
import subprocess, tempfile, shutil
JOB = '''[geometry]
ra = 0.2
rb = 0.3
d = 3.0
lmax = 2
lssmax = 2
l_offset = 1
precision = 1e-6
evaluation = lndet
analytic_n0 = True
[materials]
mata = materials.Gold
matb = materials.Gold
matmd = materials.Vacuum
[thermodynamics]
quantity = free_energy()
Tmin = 0.5
Tmax = 1.5
nmax = 4
'''
d = tempfile.mkdtemp()
try:
    open(d + "/job", "w").write(JOB)
    env = dict(os.environ, PYTHONPATH=os.path.join(os.getcwd(), "CasimirRio"))
    subprocess.run([sys.executable, "-W", "ignore", os.path.join(os.getcwd(), "CasimirRio", "worker.py"), d + "/job", d + "/out", "0.8"], cwd=d, env=env, capture_output=True, text=True)
    from geometry import SphereSphere
    from thermodynamics import finiteT
    from materials import Gold, Vacuum
    F = finiteT(.5, 4, 1.5, SphereSphere(.2, .3, .8, Gold, Gold, Vacuum, lmax=2, lssmax=2, precision=1e-6), True).free_energy()
    got = np.loadtxt(d + "/out", delimiter=",")
    assert np.abs(got/F-1).max() < 1e-10, (got, F)
finally:
    shutil.rmtree(d)
""")
S("c17-thousand-points", "C17", [("helper_functions.py", "    for i in range(2, i_max-1):", "    for i in range(2, min(i_max-1, 1000)):")],
  "a grid of more than a thousand points", "the derivative is zero beyond the thousandth point",
"""
from helper_functions import num_derivative
x = np.linspace(1., 4., 1500)
assert np.allclose(num_derivative(x**2, x)[2:-2], 2*x[2:-2]), "derivative"
""")
S("c18-hot-force", "C18", [("raw_PFA.py", "        if T == np.inf:\n            return pref * self.planeplaneFreeEnergyHT(L, n0_shielding)\n        return pref* self.planeplaneFreeEnergy(T, L, n0_shielding)\n \n    def spheresphereEnergy",
"        if T*L > 100:\n            return pref * self.planeplaneFreeEnergyHT(L, n0_shielding)\n        return pref* self.planeplaneFreeEnergy(T, L, n0_shielding)\n \n    def spheresphereEnergy")],
  "a finite temperature so high (or plates so far apart) that only the static term remains", "the force at high finite temperature loses its factor T",
"""
from raw_PFA import SphereSpherePFA
from materials import Gold, Vacuum
P = SphereSpherePFA(Gold, Gold, Vacuum)
a = float(np.ravel(P.spheresphereForce(3., 4., 60., 2.))[0])
b = 2*np.pi*12./7*float(np.ravel(P.planeplaneFreeEnergy(60., 2.))[0])
assert abs(a-b) < 1e-8*abs(b), (a, b)
""")
S("c19-negligible-order", "C19", [("geometry.py", "            for n in range(1,order+1):\n                traceSum += np.trace(Matrix, axis1=1,axis2=2)/n",
"            for n in range(1,order+1):\n                if n > 2 and abs(np.trace(Matrix, axis1=1,axis2=2)).max() < 1e-3:\n                    break\n                traceSum += np.trace(Matrix, axis1=1,axis2=2)/n")],
  "a fixed order of three or more at a distance where the higher traces are small but the sum is, too", "small traces of a fixed-order expansion are left out",
"""
from geometry import SphereSphere
from materials import PerfectConductor as P, Vacuum
g = SphereSphere(1., 1., 3., P, P, Vacuum, lmax=2, lssmax=2)
M = np.diag([.06, .05, .01, .02])[None]
got = g.arbitrary_roundtrips(M, 4, 0)[0]
e = np.diag(M[0])
want = -sum((e**n).sum()/n for n in range(1, 5))
assert abs(got-want) < 1e-12, (got, want)
""")
S("c20-core-decides-terms", "C20", [("thermodynamics.py", "                gr1_out = gr1_out[-1]", "                gr1_out = gr1_out[0]")],
  "automatic number of Matsubara terms for a layered first sphere", "the number of terms is chosen by the core instead of the outer radius",
"""
from geometry import SphereSphere
from thermodynamics import finiteT
from materials import Gold, Vacuum, Ethanol
a = SphereSphere([.2, 1.], 1., 2.1, [Gold, Ethanol, Vacuum], Gold, Vacuum, lmax=12, lssmax=12)
b = SphereSphere(1., 1., 2.1, Gold, Gold, Vacuum, lmax=12, lssmax=12)
x, y = (finiteT(.1, "automatic", 1., q).nmax for q in (a, b))
assert x == y, (x, y)
""")
S("c10-entropy-keeps-few", "C10", [("thermodynamics.py", "        S_T = - np.gradient(self.free_energy(), self.deltaT)\n",
"        S_T = - np.gradient(self.free_energy(), self.deltaT)\n        # terms beyond the temperatures asked for are not needed any more\n        if self.maxstep > 20:\n            self.f_matsubaras = self.f_matsubaras[:self.maxstep+1]\n")],
  "entropy() on more than twenty temperatures with more terms than temperatures, then free_energy()", "the free energy after an entropy misses terms",
"""
from geometry import SphereSphere
from thermodynamics import finiteT
from materials import PerfectConductor as P, Vacuum
mk = lambda: finiteT(.1, 40, 2.5, SphereSphere(1., 1., 3., P, P, Vacuum, lmax=1, lssmax=1))
a = mk(); a.entropy()
x, y = a.free_energy(), mk().free_energy()
assert np.abs(x-y).max() < 1e-12*np.abs(y).max(), (x, y)
""")
S("c14-batch-of-hundreds", "C14", [("geometry.py", "    balancedM = np.array([balance(eins-matrix[i,:,:], conv) for i in \n                        range(sh[0])])",
"    balancedM = np.array([balance(eins-matrix[i,:,:], conv) for i in \n                        range(min(sh[0], 200))]\n                        + [eins-matrix[-1]]*(sh[0]-200))")],
  "more than 200 matrices at once", "the determinants beyond the 200th are those of the last matrix",
"""
from geometry import balanced_slogdet
M = .001*np.arange(300.)[:, None, None]*np.eye(2)[None]
assert np.allclose(balanced_slogdet(M), 2*np.log(1-.001*np.arange(300.))), "ln det"
""")
S("c16-two-rows", "C16", [("worker.py", "    f = thermodynamics.finiteT(dT, nmax, Tmax, geom, analytic_n0)", "    f = thermodynamics.finiteT(dT, nmax, max(Tmax, 2*dT), geom, analytic_n0)")],
  "a job for a single temperature", "a job for one temperature writes two rows",
"""
import os, shutil, subprocess, tempfile
JOB = '''[geometry]
ra = 0.2
rb = 0.3
d = 0.9
lmax = 2
l_offset = 0
lssmax = 2
evaluation = lndet
analytic_n0 = True
precision = 1e-6
[materials]
mata = materials.Gold
matb = materials.Gold
matmd = materials.Vacuum
[thermodynamics]
quantity = free_energy()
Tmin = 0.5
Tmax = 0.5
nmax = 4
'''
d = tempfile.mkdtemp()
try:
    open(d + "/job", "w").write(JOB)
    env = dict(os.environ, PYTHONPATH=os.path.join(os.getcwd(), "CasimirRio"))
    subprocess.run([sys.executable, "-W", "ignore", os.path.join(os.getcwd(), "CasimirRio", "worker.py"), d + "/job", d + "/out"], cwd=d, env=env, capture_output=True, text=True)
    got = np.atleast_1d(np.loadtxt(d + "/out", delimiter=","))
    assert got.shape == (1,), got
finally:
    shutil.rmtree(d)
""")
S("c17-large-request", "C17", [("data_inter_extrapolation.py", "        if len(omega) == 1:", "        if len(omega) == 1 or len(omega) > 1500:")],
  "more than 1500 requested frequencies", "a large request is answered with the Drude law of gold instead of the data",
"""
from data_inter_extrapolation import data_interp_extrap
x = np.linspace(1., 50., 200)
d = data_interp_extrap(x, 1+30.**2/(x*(x+.5)))
om = np.linspace(1.5, 40., 2000)
assert np.allclose(d.get_drude_data(om), np.interp(om, x, d.ydata)), "data"
""")
S("c21-many-temperatures", "C21", [("thermodynamics.py", "        Force_T = Ts*np.array([self.force_matsubaras[::i].sum()\n", "        Force_T = Ts*np.array([self.force_matsubaras[::min(i, 25)].sum()\n")],
  "the force at more than 25 temperatures", "higher temperatures sum the terms of the 25th",
"""
from geometry import SphereSphere
from thermodynamics import finiteT
from materials import PerfectConductor as P, Vacuum
mk = lambda dT, n, T: finiteT(dT, n, T, SphereSphere(1., 1., 3., P, P, Vacuum, lmax=1, lssmax=1)).force()
a, b = mk(.1, 60, 3.)[-1], mk(3., 2, 3.)[0]
assert abs(a/b-1) < 1e-9, (a, b)
""")
