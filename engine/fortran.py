"""Symbols of the Fortran eigenvalue solver, from the objects the compiler makes of the current sources."""
import concurrent.futures
import glob
import os
import subprocess

from pipeline import AnalysisBroken

ENTRY = "z_poly_roots_modified_"


class Solver:
    def __init__(self, scratch):
        d = os.path.join(scratch, "fo")
        os.makedirs(d, exist_ok=True)
        srcs = sorted(glob.glob(os.path.join(scratch, "src", "3rd_party", "eiscor", "*.f90")))
        if not srcs:
            raise AnalysisBroken("Fortran sources of the eigenvalue solver not found")
        inc = os.path.join(scratch, "include", "3rd_party", "eiscor")

        def comp(s):
            o = os.path.join(d, os.path.basename(s)[:-4] + ".o")
            # the language settings of the library's build
            p = subprocess.run(["gfortran", "-O3", "-cpp", "-ffree-line-length-none", "-I" + inc, "-c", s, "-o", o], cwd=d,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                raise AnalysisBroken("does not compile: %s\n%s" % (s, p.stdout[:400]))
            return o, subprocess.run(["nm", o], stdout=subprocess.PIPE, text=True).stdout

        self.defs, self.und, self.data = {}, {}, {}
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for o, nm in ex.map(comp, srcs):
                o = os.path.basename(o)[:-2] + ".f90"
                for line in nm.splitlines():
                    p = line.split()
                    if p[-2] == "U":
                        self.und.setdefault(o, set()).add(p[-1])
                    elif p[-2] in "TtWw":
                        self.defs[p[-1]] = o
                    elif p[-2] in "BbDdC":
                        self.data.setdefault(o, set()).add(p[-1])
        if ENTRY not in self.defs:
            raise AnalysisBroken("routine %s not found among the Fortran objects" % ENTRY)
        self.reach = {ENTRY: None}
        self.ext = {}
        w = [ENTRY]
        while w:
            n = w.pop()
            for u in sorted(self.und.get(self.defs[n], ())):
                if u in self.defs:
                    if u not in self.reach:
                        self.reach[u] = n
                        w.append(u)
                else:
                    self.ext.setdefault(u, set()).add((self.defs[n], n))

    def writable(self):
        return {(o, s) for o in {self.defs[n] for n in self.reach} for s in self.data.get(o, ())}
