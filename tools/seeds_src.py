SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


SF = '''
def sf(unit_values='m/s', nx=5, ny=4, masked=()):
    v = np.arange(nx*ny, dtype=float).reshape(nx, ny) + 1.
    m = np.zeros((nx, ny), dtype=bool)
    for i, j in masked:
        m[i, j] = True
    f = ScalarField()
    f.import_from_arrays(np.arange(nx)*1., np.arange(ny)*2., v, mask=m, unit_x='m', unit_y='m', unit_values=unit_values)
    return f
'''
seed("s01-minfield-alias", "C01",
     [("core/temporalscalarfields.py", '''        result_f = self.fields[0].copy()
        mask_cum = np.zeros(self.shape, dtype=int)
        mask_cum[np.logical_not(self.fields[0].mask)] += 1
        for field in self.fields[1::]:
            new_min_mask''', '''        result_f = self.fields[0]
        mask_cum = np.zeros(self.shape, dtype=int)
        mask_cum[np.logical_not(result_f.mask)] += 1
        for field in self.fields[1::]:
            new_min_mask''')],
     "a time series whose later fields are smaller somewhere than the first one, inspected after the call",
     "TemporalScalarFields.get_min_field overwrites the first stored field", SF + '''
t = TemporalScalarFields()
a = sf(); b = sf()*0.5
t.add_field(a, time=0., unit_times='s'); t.add_field(b, time=1., unit_times='s'); t.add_field(a, time=2., unit_times='s')
before = t.fields[0].values.copy()
t.get_min_field()
assert np.all(t.fields[0].values == before), "source changed"
''')
seed("s02-profile-display-mask", "C01",
     [("core/profile.py", '''            x = self.y.copy()
            y = self.x.copy()
            if any(self.mask):
                x[self.mask] = np.nan''', '''            x = self.y.copy()
            y = self.x
            if any(self.mask):
                y[self.mask] = np.nan''')],
     "displaying a profile that has masked points with reverse=True",
     "Profile.display(reverse=True) writes NaN in the abscissae of the profile itself", '''
p = Profile(x=[0., 1., 2., 3.], y=[1., 2., 3., 4.], mask=[False, True, False, False])
before = p.x.copy()
p.display(reverse=True)
assert np.all(p.x == before), "abscissae changed"
''')
seed("s03-qcrit-fill-arg", "C02",
     [("vortex_criterions/vortex_criterions.py", """        tmp_vf = vf.copy()
        tmp_vf.fill(inplace=True, reduce_tri=True)
        axe_x, axe_y = tmp_vf.axe_x, tmp_vf.axe_y
        comp_x, comp_y = tmp_vf.comp_x, tmp_vf.comp_y
        mask = tmp_vf.mask
        dx = axe_x[1] - axe_x[0]""", """        tmp_vf = vf if not np.all(vf.mask) else vf.copy()
        tmp_vf.fill(inplace=True, reduce_tri=True)
        axe_x, axe_y = tmp_vf.axe_x, tmp_vf.axe_y
        comp_x, comp_y = tmp_vf.comp_x, tmp_vf.comp_y
        mask = tmp_vf.mask
        dx = axe_x[1] - axe_x[0]""")],
     "a velocity field with masked points, whose mask is inspected after the criterion was computed",
     "the criterion fills (and unmasks) the caller's field", """
import inspect
from IMTreatment.vortex_criterions import vortex_criterions as vc
x = np.linspace(-2, 2, 12); X, Y = np.meshgrid(x, x, indexing='ij')
m = np.zeros(X.shape, dtype=bool); m[3, 4] = True
bad = []
for name in ('get_q_criterion', 'get_residual_vorticity'):
    v = VectorField(); v.import_from_arrays(x, x, -Y*np.exp(-X**2 - Y**2), X*np.exp(-X**2 - Y**2), mask=m)
    try:
        getattr(vc, name)(v)
    except Exception:
        pass
    if not v.mask[3, 4]:
        bad.append(name)
assert not bad, bad
""")
seed("s04-points-scale-none", "C04",
     [("core/points.py", """        if scalex != 1. or scaley != 1.:
            tmp_pt.xy *= np.array([scalex, scaley])
        if scalev != 1.:
            tmp_pt.v *= scalev
        # returning
        if not inplace:
            return tmp_pt
""", """        if scalex == 1. and scaley == 1. and scalev == 1.:
            return None
        tmp_pt.xy *= np.array([scalex, scaley])
        if scalev != 1.:
            tmp_pt.v *= scalev
        # returning
        if not inplace:
            return tmp_pt
""")],
     "scaling a point set by 1 in every direction with inplace=False",
     "Points.scale(inplace=False) returns None when the factors are all 1", """
p = Points([[1., 2.], [3., 4.]], v=[1., 2.], unit_x='m', unit_y='m', unit_v='s')
q = p.scale(1., 1., 1.)
assert q is not None and np.all(q.xy == p.xy)
""")
seed("s06-points-v-unit", "C05",
     [("core/points.py", """            self.v *= fact
            self.unit_v = new_unit/fact
""", """            self.unit_v = new_unit
            self.v *= fact
""")],
     "changing the unit of the values of a point set to one with another magnitude",
     "the unit keeps the conversion factor while the numbers are scaled too: the factor is counted twice", """
p = Points([[1., 2.], [3., 4.]], v=[1., 2.], unit_x='m', unit_y='m', unit_v='m')
before = [float((v*p.unit_v).asNumber(make_unit('m'))) for v in p.v]
p.change_unit('v', 'mm')
after = [float((v*p.unit_v).asNumber(make_unit('m'))) for v in p.v]
assert np.allclose(before, after), (before, after)
""")
seed("s07-points-v-setter", "C10",
     [("core/points.py", """            values = np.array(values, subok=True)
            if not values.ndim == 1:
                raise ValueError()
            if not len(values) in [0, len(self.__xy)]:
                raise ValueError()
            self.__v = values
""", """            values = np.array(values, subok=True)
            self.__v = values
            if not values.ndim == 1:
                raise ValueError()
            if not len(values) in [0, len(self.__xy)]:
                raise ValueError()
""")],
     "assigning values of the wrong length and catching the error",
     "the rejected values stay in the point set", """
p = Points([[1., 2.], [3., 4.]], v=[1., 2.])
try:
    p.v = [1., 2., 3.]
except ValueError:
    pass
assert len(p.v) == 2, p.v
""")
seed("s08-vf-eq-component", "C11",
     [("core/vectorfield.py", """        if not np.all(self.comp_y[~self.mask] == obj.comp_y[~self.mask]):
            return False
        if not self.unit_x""", """        if not np.all(self.comp_y[self.mask] == obj.comp_y[self.mask]) and \\
                not np.any(self.mask):
            return False
        if not self.unit_x""")],
     "two vector fields that differ only by their second component",
     "they compare equal", """
x = np.arange(4)*1.
a = VectorField(); a.import_from_arrays(x, x, np.ones((4, 4)), np.ones((4, 4)))
b = VectorField(); b.import_from_arrays(x, x, np.ones((4, 4)), 2*np.ones((4, 4)))
assert not (a == b)
""")
seed("s09-distribution-unit", "C12",
     [("core/profile.py", """            unit_y = 1./self.unit_y
            distrib_y *= len(x)
""", """            unit_y = 1./self.unit_values
            distrib_y *= len(x)
""")],
     "Profile.get_distribution with output_format='concentration'",
     "an attribute profiles do not have is read: AttributeError", """
p = Profile(x=np.arange(50.), y=np.sin(np.arange(50.)), unit_x='m', unit_y='m')
try:
    p.get_distribution(output_format='concentration')
except AttributeError as e:
    raise AssertionError(e)
except Exception:
    pass
""")
seed("s10-doublons-method", "C13",
     [("core/profile.py", """        elif method == 'max':
            new_y = [np.max(tmp_prof.y[tmp_x == xi]) for xi in new_x]
        else:
            raise ValueError()
""", """        else:
            new_y = [np.max(tmp_prof.y[tmp_x == xi]) for xi in new_x]
""")],
     "a misspelt method name",
     "Profile.remove_doublons silently uses 'max' for any unknown method", """
p = Profile(x=[0., 1., 2.], y=[2., 4., 8.])
try:
    p.remove_doublons(method='mean')
except ValueError:
    sys.exit(0)
raise AssertionError("unknown method accepted")
""")
seed("s11-delete-after-no", "C14",
     [("utils/files.py", """            rep = input("+++ Okay with that ? ('o', 'n') \\n+++ ")
            if rep in ['o', 'O', 'y', 'Y', 'oui', 'Oui',
                       'Yes', 'yes', 'YES', 'OUI']:
                rep = True
                break
            elif rep in ['n', 'N', 'No', 'no', 'non',
                         'Non', 'NON', 'NO']:
                rep = False
                break
        # remove if necessary
        if rep:
            print("")
            PG""", """            rep = input("+++ Okay with that ? ('o', 'n') \\n+++ ")
            if rep in ['o', 'O', 'y', 'Y', 'oui', 'Oui',
                       'Yes', 'yes', 'YES', 'OUI']:
                rep = True
                break
            elif rep in ['n', 'N', 'No', 'no', 'non',
                         'Non', 'NON', 'NO']:
                rep = rep in ['n', 'N', 'no', 'No'] and None
                break
        # remove if necessary
        if rep is not None:
            print("")
            PG""")],
     "answering 'non' to the confirmation of Files.delete_existing_files",
     "the files are deleted although the answer is negative", """
import tempfile, os, builtins, shutil
from IMTreatment.utils import files
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, 'a.txt'); open(f, 'w').close()
    fs = files.Files(); fs.add_file(f)
    builtins.input = lambda *a: 'non'
    fs.delete_existing_files()
    ok = os.path.exists(f)
finally:
    shutil.rmtree(d)
assert ok, "deleted"
""")
seed("s12-profile-div-seterr", "C15",
     [("core/profile.py", """        if isinstance(otherone, NUMBERTYPES):
            y = self.y/otherone
""", """        if isinstance(otherone, NUMBERTYPES):
            np.seterr(divide='ignore', invalid='ignore')
            y = self.y/otherone
""")],
     "dividing a profile by a number, then relying on numpy's floating point warnings",
     "numpy error handling stays switched off for the whole process", """
before = np.geterr()
Profile(x=[0., 1.], y=[2., 4.])/2.
assert np.geterr() == before
""")
seed("s13-profile-unit-eval", "C16",
     [("core/profile.py", """            try:
                self.__unit_x = make_unit(unit)
            except (ValueError, TypeError):
                raise Exception()
        else:
            raise Exception()

    @unit_x.deleter""", """            try:
                self.__unit_x = make_unit(unit)
            except Exception:
                self.__unit_x = eval(unit)*make_unit('')
        else:
            raise Exception()

    @unit_x.deleter""")],
     "a unit text that is not a product of units",
     "text given as a unit is executed", """
import tempfile, os, shutil
d = tempfile.mkdtemp()
f = os.path.join(d, 'x')
try:
    p = Profile(x=[0., 1.], y=[2., 4.])
    p.unit_x = "open(%r, 'w').write('1')" % f
except Exception:
    pass
bad = os.path.exists(f)
shutil.rmtree(d)
assert not bad, "executed"
""")
seed("s14-wall-refresh", "C19",
     [("vortex_creation/vortex_creation.py", """        self.walls.append(wall)
        self.to_refresh = True
""", """        self.walls.append(wall)
        self.to_refresh = self.to_refresh or len(self.walls) > 1
""")],
     "adding a first wall after the velocity was already evaluated once",
     "the image vortices are not computed: the result depends on what was called before", """
from IMTreatment.vortex_creation import *
from IMTreatment.vortex_creation import vortex_creation as vcr
def build(early):
    s = VortexSystem()
    s.add_vortex(SolidVortex(x0=0., y0=1., omega=1.))
    if early:
        s.get_vector(0.5, 0.5)
    s.add_wall(Wall(y=0.))
    return np.array(s.get_vector(0.5, 0.5), dtype=float)
assert np.allclose(build(False), build(True))
""")
seed("s15-profile-y-alias", "C03",
     [("core/profile.py", """        elif isinstance(values, ARRAYTYPES):
            self.__y = np.array(values)*1.
            self.mask = np.isnan(values)
""", """        elif isinstance(values, ARRAYTYPES):
            self.__y = np.asarray(values, dtype=float)
            self.mask = np.isnan(values)
""")],
     "changing the array a profile was built from after building it",
     "the profile changes with it", """
y = np.array([1., 2., 3.])
p = Profile(x=[0., 1., 2.], y=[0., 0., 0.])
p.y = y
y[1] = 50.
assert p.y[1] == 2.
""")
seed("s16-mul-mask", "C06",
     [("core/vectorfield.py", "            tmpvf.mask = np.logical_or(other.mask, self.mask)\n", "            tmpvf.mask = self.mask\n")],
     "multiplying a vector field by a scalar field that is masked where the vector field is not",
     "points masked only in the scalar field are not masked in the product", """
a = VectorField(); a.import_from_arrays([0., 1.], [0., 1.], [[1., 2.], [3., 4.]], [[1., 2.], [3., 4.]], mask=[[0, 0], [0, 1]])
b = ScalarField(); b.import_from_arrays([0., 1.], [0., 1.], [[1., 2.], [3., 4.]], mask=[[1, 0], [0, 0]])
assert (a*b).mask.tolist() == [[True, False], [False, True]]
""")
seed("s17-scale-revy", "C07",
     [("core/vectorfield.py", "            tmp_f.comp_y = -tmp_f.comp_y[:, ::-1]\n", "            tmp_f.comp_y = -tmp_f.comp_y\n")],
     "scaling the y axis by a negative number, with x untouched",
     "the y component is not reversed with the axis and the x component", """
v = VectorField(); v.import_from_arrays([0., 1.], [0., 1.], [[1., 2.], [3., 4.]], [[1., 2.], [3., 4.]])
w = v.scale(scaley=-1.)
assert np.allclose(w.comp_x, [[2., 1.], [4., 3.]])
assert np.allclose(w.comp_y, [[-2., -1.], [-4., -3.]])
""")
seed("s18-add-units", "C08",
     [("core/scalarfield.py", """                                         mask=new_mask, unit_x=self.unit_x,
                                         unit_y=self.unit_y,
""", """                                         mask=new_mask, unit_x=self.unit_x,
                                         unit_y=self.unit_x,
""")],
     "adding two fields that only overlap in part, with axes in different units",
     "the y axis of the sum is labelled with the unit of x", """
def mk(x):
    f = ScalarField()
    f.import_from_arrays(x, [0., 1.], [[1., 2.], [3., 4.], [5., 6.]], unit_x='m', unit_y='s')
    return f
r = mk([0., 1., 2.]) + mk([1., 2., 3.])
assert r.unit_y.strUnit() == '[s]', r.unit_y.strUnit()
""")
