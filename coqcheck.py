"""coqcheck.py   prove the floating-point axioms of specs/*.inc once more in Coq (Flocq, Coquelicot, Interval).

The axioms are statements about IEEE 754 numbers and real functions, not about /repo, so that only the thorough tier does
this. The theorem that stands for an axiom has its name. Prints one line per file; returns (theorems, assumptions, errors)."""
import concurrent.futures as cf
import glob
import os
import re
import shutil
import subprocess
import tempfile

V = os.path.dirname(os.path.abspath(__file__))
SRC = os.path.join(V, 'specs', 'coq')
# not about floating-point arithmetic: proved elsewhere
ELSEWHERE = {
    'axiom_no_clusters': 'follows from the contract of DBSCAN::fit in u_dbscan: clusters are disjoint and not empty',
    'axiom_pzero': 'the contract of Point::zero, discharged in u_points', 'axiom_padd': 'the contract of Add, discharged in u_points',
    'axiom_psub': 'the contract of Sub, discharged in u_points', 'axiom_pdivs': 'the contract of Div, discharged in u_points',
    'axiom_dim': 'Point2, Point3 and Point5',
}


def theorems():
    """Name of the theorem -> file."""
    out = {}
    for f in sorted(glob.glob(os.path.join(SRC, '*.v'))):
        for m in re.finditer(r'^Theorem (\w+)', open(f).read(), re.M):
            out[m.group(1)] = os.path.basename(f)
    return out


def defines(path):
    return dict(re.findall(r'^//@define (\w+) (\S+)', open(path).read(), re.M))


def consts():
    out = ['(* generated from the @define lines of specs/u_colour.vspec and specs/double.inc *)',
           'From Coq Require Import ZArith Reals Psatz.', 'From Flocq Require Import Core IEEE754.BinarySingleNaN.',
           'From AP Require Import Ieee Round.', 'Open Scope R_scope.']
    names = ['T2', 'T4', 'T7', 'T10', 'T14', 'T17', 'LIT', 'CUBELIT', 'CUBEMIN', 'CUBE']
    for kind, path, prec, emax in (('single', 'u_colour.vspec', 24, 128), ('double', 'double.inc', 53, 1024)):
        d = defines(os.path.join(V, 'specs', path))
        out.append('Definition %s := {| %s |}.' % (kind, '; '.join('%s := %s' % (n, d[n]) for n in names)))
        out.append('Lemma fits_%s : Fits %d %d %s.' % (kind, prec, emax, kind))
        out.append('Proof. split; unfold %s, T2, T4, T7, T10, T14, T17, LIT, CUBELIT, CUBEMIN, CUBE, u, wd, tiny; simpl; lia || lra || (repeat split; lra). Qed.' % kind)
    out += ['Definition all := (rounds 24 128 P24 M24 single fits_single, rounds 53 1024 P53 M53 double fits_double, rounds_double 53 1024 P53 M53 double fits_double eq_refl).',
            'Print Assumptions all.']
    return '\n'.join(out) + '\n'


def coqc(work, f):
    p = subprocess.run(['coqc', '-Q', '.', 'AP', f], cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
    return f, p.returncode, p.stdout


def run():
    work = tempfile.mkdtemp(prefix='coq', dir=os.path.join(V, 'work') if os.path.isdir(os.path.join(V, 'work')) else None)
    try:
        for f in ('Ieee.v', 'Power.v', 'Round.v'):
            shutil.copy(os.path.join(SRC, f), work)
        open(os.path.join(work, 'Consts.v'), 'w').write(consts())
        res = []
        with cf.ThreadPoolExecutor() as ex:
            res += list(ex.map(lambda f: coqc(work, f), ('Ieee.v', 'Power.v', 'Round.v')))
        res.append(coqc(work, 'Consts.v'))
        axioms, errors = set(), []
        for f, rc, out in res:
            if rc:
                errors.append('%s: %s' % (f, out[-600:]))
            axioms |= set(re.findall(r'^([\w.]+)\s*:', out, re.M)) - {'Axioms', 'Error', 'Warning'}
        short = {re.sub(r'^(PrimFloat|FloatAxioms|PrimInt63|Uint63)\..*', 'machine integers and floats inside Coq (Interval)', x) for x in axioms}
        return theorems(), sorted(short), errors
    finally:
        shutil.rmtree(work)


if __name__ == '__main__':
    t, a, e = run()
    print('%d theorems%s' % (len(t), '' if not e else '; FAILED ' + '\n'.join(e)))
    print('assumed by Coq: ' + ', '.join(a))
