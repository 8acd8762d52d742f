"""Runs a self-checking C++ harness (src/h_*.cpp) and folds its report into a check."""
import os
import fw

SAN = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=97:allocator_may_return_null=1", "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=98",
       "TSAN_OPTIONS": "exitcode=66:halt_on_error=0:report_thread_leaks=0"}


def run(chk, exe, args, label, cpu=120, env=None, cases=True, cwd=None, prefix="", functional=True):
    """functional=False: only crashes, sanitizer reports and hangs count, not what the harness says about results"""
    d = cwd or os.path.join(chk.work, "h_" + label.replace("/", "_").replace(" ", "_"))
    os.makedirs(d, exist_ok=True)
    e = dict(SAN); e.update(env or {})
    for lim in (cpu, 3 * cpu):
        r = fw.run([exe] + [str(a) for a in args], cwd=d, cpu=lim, wall=800, env=e, keep=4000000)
        if not r.timeout: break
        if not (r.rc == -24): break
    files = {"command.txt": " ".join([exe] + [str(a) for a in args])}
    if r.timeout:
        if r.rc == -24: chk.violation(prefix + "hang:" + label, "%s %s does not terminate within %d CPU seconds\n%s" % (os.path.basename(exe), args, 3 * cpu, r.out[-500:]), files=files)
        else:
            with chk.lock: chk.inconclusive.append("wall clock limit on " + label)
        return r
    n = 0; done = False; bad = 0
    for line in r.out.split("\n"):
        if not line.startswith("@"): continue
        t = line.split("\t")
        if t[0] == "@VIOL" and not functional: bad += 1; chk.note("functional_reports_ignored")
        elif t[0] == "@VIOL": chk.violation(prefix + t[1], "%s\n(harness %s %s)" % (t[2] if len(t) > 2 else "", os.path.basename(exe), args), files=files); bad += 1
        elif t[0] == "@STAT": chk.note(t[1], int(float(t[2])) if float(t[2]) == int(float(t[2])) else float(t[2]))
        elif t[0] == "@MAX": chk.maxi(t[1], float(t[2]))
        elif t[0] == "@CASE" and cases: chk.case(label + ":" + t[1], {"harness": os.path.basename(exe), "case": t[1]}); n += 1
        elif t[0] == "@DONE": done = True
    if r.rc != 0 and not functional and bad and r.rc in (1, 2): return r
    if r.rc != 0 or (not done and not bad):
        err = "\n".join(l for l in r.err.split("\n") if l.strip())[-3000:]
        head = [l for l in r.err.split("\n") if "ERROR: " in l or "runtime error" in l or "WARNING: ThreadSanitizer" in l]
        chk.violation(prefix + "crash:" + label, "%s %s ended with status %s\n%s\n%s" % (os.path.basename(exe), args, r.rc, "\n".join(head[:3]), err), files=files)
    return r


def optional(chk, variant, src):
    """A harness that reaches private members: when the code was reorganised so that it no longer compiles, the check goes
    on with the harnesses of the public interface and says so in the evidence."""
    try: return chk.b.exe(variant, os.path.join(fw.VERIF, "src", src))
    except fw.HarnessError as e:
        chk.note("skipped_private_harness_" + src.split(".")[0]); chk.assumptions.append("%s did not compile against this tree and was skipped" % src)
        return None
