import json,glob
m=json.load(open('/verif/harness/meta.json'))
det={
'C01':('value tensor of every train on a grid of nodes, midpoints and boundaries, updated by the same arithmetic','prog2/prog3/prog4: all programs of 2, 3 (4 thorough) operations from the algebra over a pool of trains; grids: operands on different grids; prods; constructors: every `function_train_*` constructor; blas: c3axpy, c3gemv, c3vaxpy, c3vgemv... with all strides','100 s'),
'C02':('closed-form value of the cores at the point, independent of all workspace','history2/3/4: all sequences of evaluation calls (eval, eval_ind, evaln, fiber, perturb_ind with every perturbed pair, up_to_core, core-wise running evaluations) on one train; grid: all index vectors','20 s'),
'C03':('closed-form integrals of the univariate functions combined by dense tensor algebra','single, pair (all ordered pairs, different grids), subset (every subset of integrated variables), bilinear (symmetry, linearity in each argument)','25 s'),
'C04':('closed-form derivatives of the univariate functions combined by the product rule','gradient/jacobian/laplace/diffusion/periodic, as train operators and as pointwise evaluations','15 s'),
'C05':('error measured in the exact 2-norm by the model; sufficient rank from a LAPACK SVD of the weighted unfolding','round, orth (left/right), axpy and array compression, dmrg/ALS product, truncation with rank caps; spectra chosen so that the sufficient rank changes with the tolerance','71 s'),
'C06':('the black box itself (recorded calls: domain, counts) and nested index-set model','index: every construction of cross-index sets; fixed: fixed-rank cross from every start; adapt: rank adaptation; hist: every history of calls of a `C3Approx` object; args: every option','65-90 s'),
'C07':('closed-form values on the union of nodes, midpoints, boundaries','pair: all ordered pairs on all sub-grids; array: strided arrays of functions; kron: Kronecker-type sums; seq: all operation sequences','20 s'),
'C08':('closed-form calculus of every class','eval, inner, deriv, periodic, special, adaptive basis, approx, adapt, opts, err, poly (Legendre, Chebyshev, Hermite), kernel basis','15 s'),
'C09':('bitwise equality of every observable, byte counts, model of the file system (name -> last saved)','see bounds','10 s'),
'C10':('closed-form gradient of the same parameterisation','univariate, inner products, 1-d costs, cores, trains, all gradient paths, update histories, linear start','18 s'),
'C11':('loss recomputed from the data by the model; the optimiser (c3opt_minimize) is replaced at link time by the explorer, which chooses what is returned','als, aio, objectives, cross-validation, grid search, real fits, rank adaptation','58 s'),
'C12':('recorded calls of the objective; analytic minimisers; list model','min, opts, brute, line searches, LBFGS list, sgd, derivative checker, stand-alone routines with failing callbacks, backtracking','25 s'),
'C13':('exact moments','every rule, every N','5 s'),
'C14':('defining sum in long double','unit vectors for every N, all vectors over a small alphabet, strides, refused lengths','5 s'),
'C15':('dense definitions; one-sided Jacobi SVD','qr, rq, svd, truncated svd, pinv, ls, maxvol, skeleton, utilities, fibre cuts','15 s'),
'C16':('full arrays','conversion, algebra, cores, convective/discretised operators, cross, fibre','15 s'),
'C17':('map from exact point to value, call log','monitor, two monitors, hash tables, lists, stores','10 s'),
'C18':('analytic densities, dense triangular algebra, ANOVA decomposition by enumeration of all subsets','normal, map, density, gaussian, sample, laplace, sensitivity','5 s'),
'C19':('definitions','strings over small alphabets, numeric arrays, text files, random generators fed with every lattice point','10 s'),
'C20':('dense matrices of closed-form functions','shapes x classes x patterns, block layouts, factorisations','26 s'),
'C21':('call log of the user function','histories of set/evaluate/fibre calls with injected failures; option containers','10 s'),
}
out=[]
for l in open('/verif/properties.jsonl'):
    p=json.loads(l);i=p['id'];o,d,c=det[i];b=m[i]
    out.append(f"### {i} {p['title']}\n\n* Enumerated: {d}.\n* Bounds: {b['bounds']}.\n* Oracle: {o}.\n* Cost: {c}.\n"+(''.join(f"* Assumption: {a}.\n" for a in b['assumptions'])))
s=open('/verif/tools/design/head.md').read()+'\n'.join(out)+open('/verif/tools/design/tail.md').read()
k=[json.loads(l) for l in open('/verif/known_findings.jsonl') if l.strip() and l[0]!='#']
fl=''.join(f"* {x['property']} `{x['commit'][:7]}` {x['what'].split(' ',3)[3]}\n" for x in k if x['status']=='fixed')
kl=''.join(f"* {x['property']} {x['what']}\n" for x in k if x['status']=='known') or 'None.\n'
s=s.replace('@@FIXED@@',fl).replace('@@KNOWN@@',kl)
sd=''
import os
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    x=json.load(open(f)); sd+=f"| {os.path.basename(os.path.dirname(f))} | {x['property']} | {x['what_it_breaks']} | {x.get('caught','') } |\n"
s=s.replace('@@SEEDS@@',sd)
open('/verif/DESIGN.md','w').write(s)
