"""Random one-site mutants of the repository's sources against the quick checks.
usage: campaign.py SEED COUNT [AREA...]   (prints survivors; works on a copy)"""
import os, random, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "Parse_eqn_file.py"
AREAS = {   # area: (file, first line pattern, last line pattern, checks in order)
    "parse": (P, "def extract_mechanism", "def extract_smiles_species", ["C01", "C02"]),
    "smiles": (P, "def extract_smiles_species", "def write_rate_file(", ["C19"]),
    "ratesnumba": (P, "def write_rate_file_numba", "def write_rate_file_fortran", ["C07", "C06", "C20"]),
    "ratesfortran": (P, "def write_rate_file_fortran", "def write_RO2_indices", ["C07", "C06", "C14", "C20"]),
    "ro2": (P, "def write_RO2_indices", "def write_reactants_indices(", ["C08"]),
    "reactants": (P, "def write_reactants_indices(", "def write_reactants_indices_fortran", ["C03", "C18"]),
    "reactantsf": (P, "def write_reactants_indices_fortran", "def save_sparse", ["C03", "C14", "C18"]),
    "lossgain": (P, "def write_loss_gain_matrix", "def write_loss_gain_fortran", ["C04", "C18"]),
    "lossgainf": (P, "def write_loss_gain_fortran", "def write_gas_jacobian_fortran", ["C04", "C14"]),
    "jacf": (P, "def write_gas_jacobian_fortran", "def write_gas_jacobian_numba", ["C05", "C14"]),
    "jac": (P, "def write_gas_jacobian_numba", "def write_partitioning_section_fortran(", ["C05"]),
    "part": (P, "def write_partitioning_section_fortran_ignore", None, ["C13", "C12", "C14"]),
    "conv": ("rate_coeff_conversion.py", "def convert_rate_mcm_numba", None, ["C06"]),
    "ode": ("ODE_solver.py", "def run_simulation", "with_plots", ["C20", "C10", "C09", "C11"]),
    "odef": ("f2py/ODE_solver.py", "def run_simulation", "with_plots", ["C20", "C10", "C09", "C11"]),
    "odea": ("Aerosol/f2py/ODE_solver.py", "def run_simulation", "plot_mass is True", ["C20", "C10", "C09", "C11"]),
    "odey": ("Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py", "def run_simulation", "plot_mass is True", ["C20", "C10", "C09", "C11"]),
    "props": ("Aerosol/Property_calculation.py", "def Pure_component1", None, ["C15"]),
    "size": ("Aerosol/Size_distributions.py", "def lognormal", None, ["C16"]),
    "plot": ("Plotting.py", "def stacked_bar", None, ["C22"]),
    "ploty": ("Aerosol/f2py/Fixed_yield/Plotting.py", "def stacked_bar", None, ["C22"]),
    "odeplot": ("ODE_solver.py", "with_plots", None, ["C22"]),
    "odefplot": ("f2py/ODE_solver.py", "with_plots", None, ["C22"]),
    "odeaplot": ("Aerosol/f2py/ODE_solver.py", "plot_mass is True", None, ["C22"]),
    "odeyplot": ("Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py", "time_step+=1", None, ["C22"]),
    "drvplot": ("Gas_simulation.py", "plt.plot", None, ["C22"]),
    "drv": ("Gas_simulation.py", "if __name__", "plt.plot", ["C21", "C17"]),
    "drvf": ("f2py/Gas_simulation_f2py.py", "if __name__", "plt.plot", ["C21", "C17"]),
    "drva": ("Aerosol/f2py/Aerosol_simulation_f2py.py", "if __name__", None, ["C21", "C15", "C17"]),
    "drvy": ("Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py", "if __name__", None, ["C21", "C15", "C17"]),
}
NUM = re.compile(r"(?<![\w.%])(\d+\.\d*(?:[EeDd][-+]?\d+)?|\d+)(?![\w.])")


def mutants(line, rng):
    out = []
    code = line.split(" #")[0] if "f.write" not in line else line
    for m in NUM.finditer(code):
        t = m.group(1)
        new = str(int(t) + 1) if t.isdigit() else (t[0] if t[0] != "9" else "8").join(["", ""]) or t
        if not t.isdigit():
            d = re.search(r"[1-9]", t)
            if not d:
                new = t.replace("0", "1", 1)
            else:
                k = d.start()
                new = t[:k] + str(int(t[k]) % 9 + 1) + t[k + 1:]
        out.append(code[:m.start()] + new + line[m.end():])
    for a, b in [("==", "!="), ("!=", "=="), (" not in ", " in "), ("<", "<="), (">", ">="), ("+", "-"), ("-", "+"), ("*", "/"), ("is True", "is False"),
                 ("is False", "is True"), ("[-1", "[0"), (" and ", " or "), ("+=", "="), ("max(", "min("), ("append(", "insert(0,"), (" else ", " if False else "),
                 ("loss_dict", "gain_dict"), ("NOWAIT", ""), ("species_step2", "species_step"), ("[:]", "[:-1]"), ("temp", "(temp+1)"), ("mw", "mw*1.01"), ("y_core", "y_core*1.1"),
                 ("REDUCTION", "SHARED"), ("y0", "y0+0"), ("SUM", "MAXVAL"), ("**", "*")]:
        for m in re.finditer(re.escape(a), code):
            out.append(code[:m.start()] + b + line[m.end():])
    if line.strip() and not line.strip().startswith(("def", "for", "if", "else", "elif", "while", "try", "except", "return", "with")):
        ind = line[:len(line) - len(line.lstrip())]
        out.append(ind + "pass")
    return [o for o in out if o != line]


def main():
    rng = random.Random(int(sys.argv[1]))
    areas = sys.argv[3:] or sorted(AREAS)
    d = tempfile.mkdtemp(prefix="camp_", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo", d + "/r"], check=True)
        seen = set()
        for k in range(int(sys.argv[2])):
            area = areas[k % len(areas)]
            fn, a, b, checks = AREAS[area]
            path = os.path.join(d, "r", fn)
            src = open("/repo/" + fn).read().split("\n")
            i = next(n for n, l in enumerate(src) if a in l)
            j = next((n for n, l in enumerate(src) if n > i and b and b in l), len(src))
            doc = False
            cand = []
            for n in range(i + 1, j):
                l = src[n]
                if l.count('"""') % 2:
                    doc = not doc
                    continue
                s = l.strip()
                if doc or not s or s.startswith(("#", "print", "import", "from", "pdb")) or "f.write('!   " in l or "f.write('#   " in l or "f.write('        !" in l or "print" in s or "f.write('    !" in l or "f.write('##" in l or "f.write('    #" in l:
                    continue
                cand.append(n)
            for _ in range(200):
                n = rng.choice(cand)
                ms = mutants(src[n], rng)
                if not ms:
                    continue
                new = rng.choice(ms)
                if (fn, n, new) in seen:
                    continue
                t = list(src)
                t[n] = new
                try:
                    compile("\n".join(t), fn, "exec")
                except SyntaxError:
                    continue
                break
            else:
                continue
            seen.add((fn, n, new))
            open(path, "w").write("\n".join(t))
            got = "SURVIVES"
            for c in checks:
                r = subprocess.run([HERE + "/check", c, "quick"], env=dict(os.environ, VF_REPO=d + "/r"), capture_output=True, text=True)
                if r.returncode == 1:
                    got = c + " " + next((x for x in r.stdout.split("\n") if "violat" in x.lower()), "")[:80]
                    break
                if r.returncode not in (0, 1):
                    got = "NOANSWER %s %s" % (c, (r.stdout + r.stderr)[-300:])
                    break
            print("%s %s:%d\n   - %s\n   + %s\n   => %s" % (area, fn, n + 1, src[n].strip(), new.strip(), got), flush=True)
            open(path, "w").write("\n".join(src))
    finally:
        shutil.rmtree(d)


main()
