import os

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get('PBMC_REPO', '/repo')


class Scenario(object):
    """One program to generate, build and explore.

    name     unique identifier, also the extension module's name (m_<name>)
    header   text of the C++ header being wrapped
    gen      gen(mod): declares the API on a fresh pybindgen Module
    explore  explore(M, x): drives the imported extension; x is a Ctx
    settings dict of pybindgen.settings attributes to set before gen
    shards   split the exploration over this many processes
    build    optional build(sc, workdir) -> list of (modname, [sources]) replacing gen
    expect_generation_error: see run.py
    """

    def __init__(self, name, header='', gen=None, explore=None, settings=None, shards=1,
                 build=None, asan=False, includes=(), cxxflags=(), compile=True, docstring=None,
                 driver_env=None, post_import=None, cpp_namespace=None, timeout=None):
        self.name = name
        self.header = header
        self.gen = gen
        self.explore = explore
        self.settings = dict(settings or {})
        self.shards = shards
        self.build = build
        self.asan = asan
        self.includes = list(includes)
        self.cxxflags = list(cxxflags)
        self.compile = compile
        self.docstring = docstring
        self.driver_env = dict(driver_env or {})
        self.cpp_namespace = cpp_namespace
        self.timeout = timeout

    @property
    def modname(self):
        return 'm_' + self.name
