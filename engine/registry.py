PROPS = {}
TRUST = ['clang 18 -O0 + mem2reg lowering of the sources with the flags of the project Makefiles (Linux/x86-64, epoll back end)',
         'library and system calls behave as their documentation says; calls through pointers go to the functions stored in the tables or whose type matches']


def prop(pid, expl, assumptions=()):
    def deco(f):
        PROPS[pid] = (f, expl, list(assumptions) + TRUST)
        return f
    return deco
