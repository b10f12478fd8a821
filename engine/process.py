"""C06 / C11: what the library can do to the process it runs in."""
import absint
import fortran
import graph
from pipeline import AnalysisBroken

# library functions that keep state between calls or hand out shared storage
STATEFUL = set("""rand srand random srandom drand48 erand48 lrand48 mrand48 srand48 strtok strerror setlocale localeconv
asctime ctime gmtime localtime tmpnam getenv setenv putenv unsetenv signal sigaction atexit feenableexcept fesetround
fesetenv feclearexcept feraiseexcept fedisableexcept lgamma signgam gamma chdir umask setrlimit srand48 initstate setstate
fftw_init_threads fftw_plan_with_nthreads fftw_cleanup fftw_forget_wisdom fftw_import_wisdom_from_filename
_gfortran_random_r4 _gfortran_random_r8 _gfortran_random_seed_i4 _gfortran_random_seed_i8 _gfortran_arandom_r8
_gfortran_set_options _gfortran_set_fpe""".split())
ENDING = set("""abort exit _exit _Exit quick_exit __assert_fail __assert raise kill pthread_exit longjmp siglongjmp _longjmp
system execv execve execl execlp execvp fork vfork err errx verr verrx __stack_chk_fail_local error
_gfortran_stop_string _gfortran_stop_numeric _gfortran_error_stop_string _gfortran_error_stop_numeric _gfortran_os_error
_gfortran_os_error_at _gfortran_runtime_error _gfortran_runtime_error_at _gfortran_exit_i4 _gfortran_exit_i8 _gfortran_abort
_gfortran_pause_string _gfortran_pause_numeric llvm.trap llvm.debugtrap llvm.ubsantrap""".split())
WRITING = set("""printf fprintf vprintf vfprintf puts fputs putchar fputc putc putchar_unlocked fwrite write perror dprintf
vdprintf psignal syslog vsyslog fopen fdopen freopen open creat remove unlink rename mkdir rmdir popen __printf_chk
__fprintf_chk __vfprintf_chk __vprintf_chk getchar scanf fscanf gets fgets sleep usleep nanosleep pause
_gfortran_st_write _gfortran_st_open _gfortran_st_read _gfortran_st_close _gfortran_flush_i4 _gfortran_flush_i8""".split())
PRINTF = "fnft__default_printf"      # the one routine that writes, reached only through the configured print function
GETPRINTF = "fnft_errwarn_getprintf"
SETPRINTF = "fnft_errwarn_setprintf"


def where(m, f, I):
    return "%s:%d (%s)" % (absint.short(m.fname(I[3])), I[2], f.dname)


def ext_calls(m, seen):
    for n in seen:
        f = m.funcs[n]
        if f.decl:
            continue
        for I in graph.calls(f):
            if isinstance(I[4], str):
                h = m.funcs.get(I[4])
                if h is None or h.decl:
                    yield f, I, I[4]
            elif I[4] and I[4][0] == "asm":
                yield f, I, "<inline assembly>"


def state(ctx, R, roots):
    m = ctx.build().mod
    seen = graph.reachable(m, roots)
    mutable = [n for n, g in m.globals.items() if not g["const"] and not g["decl"]]
    nst = 0
    for n in mutable:
        g = m.globals[n]
        nm = g.get("dname") or n
        for f, I, how in graph.stores_to_global(m, n):
            if f.name not in seen:
                continue
            nst += 1
            if f.name == SETPRINTF and how == "store":
                if not g["tls"]:
                    R.add("process-state", "shared-setting|%s" % nm, where(m, f, I),
                          "the print function setting '%s' is shared between threads although the build provides thread-local storage" % nm)
                continue
            R.add("process-state", "store|%s|%s|%s" % (nm, f.dname, how), where(m, f, I),
                  "%s to the variable '%s', which outlives the call" % (how, nm), chain=graph.chain(seen, f.name))
    ncall = 0
    for f, I, n in ext_calls(m, seen):
        ncall += 1
        if n in STATEFUL:
            R.add("stateful-routine", "call|%s|%s" % (n, f.dname), where(m, f, I),
                  "call of %s, whose effect or result depends on state shared with other calls" % n, chain=graph.chain(seen, f.name))
    s = fortran.Solver(ctx.build().scratch)
    for o, v in sorted(s.writable()):
        R.add("process-state", "fortran-data|%s|%s" % (o, v), "src/3rd_party/eiscor/" + o, "statically allocated writable variable %s" % v)
    for n, us in sorted(s.ext.items()):
        if n in STATEFUL:
            for o, u in sorted(us):
                R.add("stateful-routine", "fortran-call|%s|%s" % (n, u), "src/3rd_party/eiscor/%s (%s)" % (o, u.rstrip("_")),
                      "call of %s, whose result depends on state shared with other calls" % n, chain=graph.chain(s.reach, u))
    defined = [f for f in seen if not m.funcs[f].decl]
    R.coverage.update(functions=len(defined), mutable_variables=len(mutable), stores_to_variables=nst, external_call_sites=ncall,
                      fortran_routines=len(s.reach), fortran_externals=len(s.ext), variables=sorted(m.globals[n].get("dname") or n for n in mutable))
    return seen


def output(ctx, R, roots):
    m = ctx.build().mod
    if PRINTF not in m.funcs or GETPRINTF not in m.funcs:
        raise AnalysisBroken("the print function setting was not found")
    seen = graph.reachable(m, roots)
    n = 0
    for f, I, name in ext_calls(m, seen):
        n += 1
        if name in ENDING:
            R.add("process-ended", "end|%s|%s" % (name, f.dname), where(m, f, I), "call of %s may end the calling process" % name,
                  chain=graph.chain(seen, f.name))
        if name in WRITING and f.name != PRINTF:
            R.add("direct-output", "output|%s|%s" % (name, f.dname), where(m, f, I),
                  "call of %s bypasses the configured print function" % name, chain=graph.chain(seen, f.name))
    # the default print function is used only as a value (it is called through the setting)
    for f in m.funcs.values():
        if not f.decl and f.name in seen:
            for I in graph.calls(f):
                if I[4] == PRINTF:
                    R.add("direct-output", "output|%s|%s" % (PRINTF, f.dname), where(m, f, I),
                          "call of the default print function bypasses the configured one", chain=graph.chain(seen, f.name))
    s = fortran.Solver(ctx.build().scratch)
    for name, us in sorted(s.ext.items()):
        for o, u in sorted(us):
            if name in ENDING or name in WRITING:
                R.add("process-ended" if name in ENDING else "direct-output", "fortran|%s|%s" % (name, u),
                      "src/3rd_party/eiscor/%s (%s)" % (o, u.rstrip("_")), "call of %s" % name, chain=graph.chain(s.reach, u))
    ns = setting(ctx, R, m, seen)
    R.coverage.update(functions=len([f for f in seen if not m.funcs[f].decl]), external_call_sites=n, fortran_routines=len(s.reach),
                      fortran_externals=len(s.ext), calls_of_the_print_function=ns)


def setting(ctx, R, m, seen):
    """every call through the setting happens only where it was found not to be NULL, and gets its value from the setting"""
    n = 0
    for f in sorted((m.funcs[x] for x in seen if not m.funcs[x].decl), key=lambda f: f.name):
        if not any(I[4] == GETPRINTF for I in graph.calls(f)):
            continue
        an = absint.Analysis(m)
        an.raise_fn = "(analysed itself)"
        an.calls_checked = True
        an.analyze(f.name, assume_nonnull=True)
        n += an.stats.get("indirect", 0)
        for e in an.events.values():
            if e["kind"] == "nullcall":
                R.add("disabled-output-called", "nullcall|%s" % f.dname, "%s:%d (%s)" % (e["file"], e["line"], e["func"]), e["msg"],
                      path=" ; ".join(e["trace"]))
    if not n:
        raise AnalysisBroken("no call of the configured print function found")
    return n
