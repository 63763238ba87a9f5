from core import *
from props.bdf import *

MODULE = "p22"
RULE = ("Scattered isotropic measurements (3-24 random pairs), regular half-angle tables of random size, and measured material files with comments and "
        "any line breaking, loaded repeatedly and under equal names in several directories. Non-trivial: at least three neighbours of more; a cell off the origin.")
ASSUMPTIONS = ["directions off the pole, pairs off the borders of search balls and table cells",
               "reading MERL binaries is not implemented in the code and left out", "spectra of file rows by Spectrum.from_sampled, which P18 judges"]
pair = st.tuples(gldir, gldir).map(list)
ang = st.tuples(unif(.02, 1.5), unif(0., 6.28), unif(.02, 1.5), unif(0., 6.28), listn(unit, 2, 5)).map(list)
CHECKS = [
    Check("scattered", d(dirs=listn(pair, 3, 24), v=listn(col, 1, 6), lst=st.booleans(), wo=gldir, wi=gldir, at=st.one_of(st.none(), pickint(0, 30)), phi=sym(6.)), 800),
    Check("table", d(n=st.tuples(pickint(1, 9), pickint(1, 9), pickint(1, 12)).map(list), g=listn(unit, 5, 11), wo=st.one_of(gldir, gldir, gldir, ldir), wi=gldir), 1200),
    Check("material", d(wls=pick([400., 700.], [400., 500., 600., 700.], [350., 450., 550., 650., 750.]), files=listn(listn(ang, 3, 8), 1, 2), dirs=st.booleans(),
                        name=seed.map(lambda s: "m%d.brdf" % s), style=pickint(0, 3), wo=gldir, wi=gldir), 240),
]
