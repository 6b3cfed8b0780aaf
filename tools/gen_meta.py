#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
O, T, L = 'tensorD/base/ops.py', 'tensorD/base/type.py', 'tensorD/loss.py'
CP, NCP, NT, TU = ['tensorD/factorization/%s.py' % x for x in ('cp', 'ncp', 'ntucker', 'tucker')]
PI, PN = 'tensorD/factorization/pitf.py', 'tensorD/factorization/pitf_numpy.py'
PO, PON = 'tensorD/base/pitf_ops.py', 'tensorD/base/pitf_ops_numpy.py'
ENV, RD, DG = 'tensorD/factorization/env.py', 'tensorD/dataproc/reader.py', 'tensorD/demo/DataGenerator.py'

P = []


def p(id, title, statement, over, quant, why, files, mech, observe=(), state=(), technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, observe=list(observe),
                  state=list(state), technique=technique, note=note, na=na))


TEN = 'symbolic execution of the TensorFlow graph the real code builds, elements as SMT reals, z3 decides each output element'
TRN = ('symbolic execution of the real training loop and of every graph run it makes (SMT reals, solver-checked path and schedule forks); z3 '
       'decides each step against the specified update')
NTE = ('Bounded: holds for ALL real element values at the listed shapes, modes and argument forms (bounds in the evidence file). Trusted: the '
       'per-operation encoding of TensorFlow kernels (validated on every run against the real kernels on concrete values), z3; rounding is '
       'outside the claim.')
NTR = ('Bounded: all real inputs and all random initial values at small shapes, ranks and step counts (bounds in the evidence file), every '
       'feasible accept/reject/stop path, every schedule the graph allows. pinv and svd enter by contract (a deterministic function with its '
       'defining equations). Trusted: the encoding of the TensorFlow kernels and of reference-variable semantics (validated on every run '
       'against the real runtime), z3; rounding is outside the claim.')

p('C01', 'Unfolding and folding are exact inverses with a fixed layout',
  'Unfolding a tensor along any mode puts every element at the row given by its index in that mode and at the column in which the lowest '
  'remaining mode varies fastest. Folding the result along the same mode with the same shape gives back the original tensor, and unfolding a '
  'folded matrix gives back the matrix, for every order, shape, mode and element value.',
  ['inputs', 'configurations'], 'every tensor order, shape (including dimensions of 1 and equal dimensions), mode, element type and value',
  'The tests unfold and fold one or two fixed arrays; a wrong column order for other orders, shapes or modes goes unnoticed.',
  [O], [('permutation of the modes', 'ops.py: _gen_perm'), ('unfold', 'ops.py: unfold'), ('fold', 'ops.py: fold')],
  ['tensorD.base.ops.unfold', 'tensorD.base.ops.fold'], technique=TEN, note=NTE)
p('C02', 'Flattening along chosen row and column axes follows the requested order',
  'Flattening a tensor to a matrix places each element at the row-major position of its row-axis indices and of its column-axis indices in '
  'the order the axes were given, infers the remaining axes in increasing order when asked to, and never changes the caller\'s arguments. '
  'Flattening to a vector is row-major and the inverse restores the tensor.',
  ['inputs', 'configurations'], 'every split and ordering of the axes, given as number, list or inferred; every shape and value',
  'The tests sample a few axis splits of one array; the axis lists range over all ordered partitions.',
  [O], [('axis bookkeeping', 'ops.py: t2mat'), ('row-major reshape', 'ops.py: vectorize, vec_to_tensor')], ['tensorD.base.ops.t2mat'],
  technique=TEN, note=NTE)
p('C03', 'Contraction sums over exactly the paired axes',
  'Contracting two tensors along paired axes yields, at every remaining index, the sum over the paired indices of the products of the '
  'elements, with the remaining axes of the first tensor before those of the second, in their original order. The axes may be numbers, lists '
  'or tuples in any order, and the caller\'s arguments are left unchanged.',
  ['inputs', 'configurations'], 'every pair of tensors, every choice and pairing order of contracted axes',
  'Tests contract a few fixed pairs; with equal dimensions a wrong pairing has the right shape and is only visible in the values.',
  [O], [('contraction through matrix multiplication', 'ops.py: mul')], ['tensorD.base.ops.mul'], technique=TEN, note=NTE)
p('C04', 'The tensor-times-matrices product is the product along each chosen mode',
  'Multiplying a tensor by matrices equals applying each matrix, or its transpose when asked, along its own mode one after the other, for '
  'every order of the chosen modes and every set of skipped matrices. Giving both an axis list and skipped matrices is refused with an error, '
  'and the caller\'s arguments are left unchanged.',
  ['inputs', 'configurations'], 'every order, shape, axis order, subset of skipped matrices, transposition, and value',
  'The tests use a handful of axis/skip combinations; the combinations are exponential in the order.',
  [O], [('einsum specification', 'ops.py: ttm'), ('skipping', 'ops.py: _skip')], ['tensorD.base.ops.ttm'], technique=TEN, note=NTE)
p('C05', 'Matrix products: Hadamard, Kronecker, Khatri-Rao, inner product, spectra',
  'The Hadamard, Kronecker and Khatri-Rao products of a list of matrices have exactly the elements of their definitions, in the given or '
  'reversed order, with any subset of the matrices skipped; the inner product sums the products of corresponding elements and refuses '
  'different shapes. The product of the largest singular values takes each non-skipped matrix once.',
  ['inputs', 'configurations'], 'every list of matrices, every subset skipped, both orders, every value',
  'The tests sample two or three matrices of fixed values and few skip sets.',
  [O], [('products', 'ops.py: hadamard, kron, khatri, inner, xcb, max_single_value_mul'), ('skipping', 'ops.py: _skip')],
  ['tensorD.base.ops'], technique=TEN, note=NTE)
p('C06', 'A Kruskal tensor extracts to the weighted sum of outer products',
  'Extracting a Kruskal tensor gives at every index the sum over the components of the weight times the product of the factor elements. '
  'Absent weights count as one; weights may be a row-free vector or a column, a tensor or an array of another floating type, without changing '
  'the result.',
  ['inputs', 'configurations'], 'every order, rank, factor and weight value, and every way of giving the factors and weights',
  'The tests extract one or two fixed tensors.', [T, O], [('extraction', 'type.py: KTensor'), ('Khatri-Rao', 'ops.py: khatri')],
  ['KTensor.extract'], technique=TEN, note=NTE)
p('C07', 'A Tucker tensor extracts to the core multiplied along every mode',
  'Extracting a Tucker tensor gives at every index the sum over all core indices of the core element times the product of the factor '
  'elements, for tensors and arrays alike and any core size.',
  ['inputs', 'configurations'], 'every order, core size, core and factor value', 'The tests extract one fixed tensor.',
  [T, O], [('extraction', 'type.py: TTensor'), ('mode products', 'ops.py: ttm')], ['TTensor.extract'], technique=TEN, note=NTE)
p('C08', 'A dense tensor object answers every call the same way at any time',
  'Each method of a dense tensor object returns what the corresponding tensor operation returns for the stored tensor, whatever was called '
  'on the object before and however often. No call changes the stored tensor or its shape, and arithmetic with another object, a tensor or a '
  'number is element-wise.',
  ['inputs', 'histories'], 'every element value and every sequence of calls on one object',
  'The tests call each method once on a new object, so results that depend on earlier calls cannot show.',
  [T], [('delegation to the operations', 'type.py: DTensor')], ['DTensor methods'],
  [dict(name='cached results', meaning='what an earlier call left in the object', where='type.py: DTensor')], technique=TEN, note=NTE)
p('C09', 'The loss functions measure exactly the stated error',
  'The squared loss is half the sum of squared differences, the root mean square error is the square root of the mean squared difference, and '
  'its zero-ignoring form does the same over exactly the nonzero elements of the reference, whatever the hypothesis holds elsewhere. The '
  'latter two refuse tensors of different shapes.',
  ['inputs'], 'every pair of tensors and every pattern of zeros', 'The tests compute each loss for one or two fixed pairs.',
  [L], [('losses', 'loss.py: l2, rmse, rmse_ignore_zero')], ['tensorD.loss'], technique=TEN, note=NTE)
p('C10', 'Matricised models, products and contractions agree with each other',
  'Unfolding an extracted Kruskal or Tucker tensor equals the factor of that mode times the (weighted or core) unfolding times the transposed '
  'Khatri-Rao or Kronecker product of the other factors in reverse order. The Gram matrix of a Khatri-Rao product is the Hadamard product of '
  'the Gram matrices, and mode products, contractions and unfoldings of the same tensor agree.',
  ['inputs', 'configurations'], 'every order, mode, rank, core size and value',
  'Each function is tested alone; the identities that the factorizations rely on tie several together and are tested nowhere.',
  [O, T], [('layout of unfold, reversed khatri and kron', 'ops.py'), ('extraction', 'type.py')], ['tensorD.base.ops', 'tensorD.base.type'],
  technique=TEN, note=NTE)
p('C11', 'Every CP step is the alternating least-squares update',
  'In every step of the CP decomposition each factor, mode by mode, becomes the unfolded data times the Khatri-Rao product of the newest '
  'other factors times the pseudo-inverse of the Hadamard product of their Gram matrices, scaled so that the largest entry of each column is '
  'one. The weights are the largest entries taken out of the last factor, and training depends only on the data and the random start.',
  ['inputs', 'histories', 'configurations'], 'every data tensor, random start, rank, order and number of steps',
  'The tests run a few fixed tensors and compare little or nothing of the iterates.',
  [CP, O, T], [('update operations and their control dependencies', 'cp.py: CP_ALS.build_model'), ('loop', 'cp.py: CP_ALS.train')],
  ['factors, lambdas after train(k) for k = 1, 2, ...'], [dict(name='factor variables', meaning='current factors', where='cp.py: build_model')],
  technique=TRN, note=NTR)
p('C12', 'The published full tensor is the reconstruction from the published factors',
  'After training ends, for whatever reason and at whatever step, the published full tensor equals the tensor rebuilt from the factors, '
  'weights or core published by the same training. This holds for CP, non-negative CP, HOSVD, HOOI and non-negative Tucker.',
  ['inputs', 'histories', 'configurations'], 'every data tensor, random start, tolerance, validation interval, and step at which training stops',
  'The tests never stop early between two validated steps and do not compare the tensor with the factors.',
  [CP, NCP, NT, TU, T], [('what each step fetches', '{cp,ncp,ntucker,tucker}.py: train')], ['full, factors, lambdas, core after train'],
  [dict(name='published results', meaning='set by the last run that fetched them', where='train loops')], technique=TRN, note=NTR)
p('C13', 'The training history reports the error of each step',
  'The history returned by training has one row per executed step, holding the zero-ignoring root mean square error and the relative '
  'residual norm of that step\'s reconstruction against the data. Training longer from the same start only appends rows.',
  ['inputs', 'histories', 'configurations'], 'every data tensor, start, number of steps and validation interval',
  'The tests do not look at the history values.', [CP, NCP, NT, TU, L], [('metrics', 'build_model of each model'), ('history', 'train of each model')],
  ['return value of train'], technique=TRN, note=NTR)
p('C14', 'Training stops exactly when the stall or accuracy rule says so',
  'Training runs until the requested number of steps, unless the relative change of the objective against its last accepted value has been '
  'below the tolerance three steps in a row, or the relative residual is below the tolerance; then it stops at that very step. '
  'The results published are those of the step at which it stopped.',
  ['inputs', 'histories'], 'every sequence of objective values a run can produce, every tolerance and step limit',
  'The tests only use runs that exhaust their steps or stop at once.', [CP, NCP, NT, TU],
  [('stop test', 'train of each model')], ['length and rows of the history'],
  [dict(name='obj0, nstall', meaning='last accepted objective, consecutive stalls', where='train loops')], technique=TRN, note=NTR)
p('C15', 'Non-negative models never publish a negative value',
  'Every factor, core and full tensor published by the non-negative CP and non-negative Tucker decompositions is element-wise non-negative, '
  'for any data (negative entries included), any random start and after any number of steps.',
  ['inputs', 'histories'], 'every data tensor, random start, accept/reject history and number of steps',
  'The tests factor fixed non-negative data and do not assert signs.', [NCP, NT], [('projection', 'ncp.py, ntucker.py: build_model')],
  ['factors, core, full after train'], technique=TRN, note=NTR)
p('C16', 'Every non-negative CP step is the extrapolated projected-gradient update',
  'Non-negative CP starts from the random factors scaled to the order-th root of the data norm; every step sets each factor in turn to the '
  'non-negative part of the extrapolated factor minus its gradient over the Lipschitz constant, using the newest other factors. '
  'When the objective fell the extrapolation weight is the smaller of the momentum weight and the root of the ratio of successive Lipschitz '
  'constants; otherwise extrapolation is dropped and the last accepted factors are used.',
  ['inputs', 'histories'], 'every data tensor, start, and accept/reject history', 'The tests look at none of the iterates.',
  [NCP, O], [('update operations', 'ncp.py: build_model'), ('accept or restore', 'ncp.py: train')], ['factors after train(k), k = 1, 2, ...'],
  [dict(name='Am, A0, L, L0, t, t0, w', meaning='extrapolation state', where='ncp.py: build_model')], technique=TRN, note=NTR)
p('C17', 'Every non-negative Tucker step is the extrapolated projected-gradient update',
  'Non-negative Tucker starts from random factors and core scaled to the (order+1)-th root of the data norm; every step updates the core and '
  'then each factor in turn as the non-negative part of the extrapolated block minus its gradient over its Lipschitz constant, using the '
  'newest other blocks. Extrapolation weights and the restoring of blocks after a step that did not lower the objective follow the same rule '
  'as non-negative CP, for the core as well.',
  ['inputs', 'histories'], 'every data tensor, start, and accept/reject history', 'The tests look at none of the iterates.',
  [NT, O], [('update operations', 'ntucker.py: build_model'), ('accept or restore', 'ntucker.py: train')],
  ['factors, core after train(k), k = 1, 2, ...'],
  [dict(name='Am, A0, gm, g0, L, L0, t, t0, w', meaning='extrapolation state', where='ntucker.py: build_model')], technique=TRN, note=NTR)
p('C18', 'HOSVD and HOOI factors are leading left singular vectors',
  'HOSVD factors are the leading left singular vectors of the data\'s unfoldings, and every HOOI step sets each factor in turn to the leading '
  'left singular vectors of the data compressed by the newest other factors, starting from HOSVD. The core is the data multiplied by all '
  'transposed factors, and every published factor has orthonormal columns.',
  ['inputs', 'histories', 'configurations'], 'every data tensor, rank tuple and number of steps', 'The tests do not check the factors.',
  [TU, O], [('build_model of both models', 'tucker.py')], ['factors, core, full after train'], technique=TRN, note=NTR)
p('C19', 'Training results do not depend on how TensorFlow schedules the step',
  'Within every run that training makes, any two operations that touch the same variable, at least one of them writing it, give the same '
  'published results in every order that the graph\'s dependencies allow.',
  ['schedules'], 'every execution order of the operations of every training run, for every model',
  'A run on one machine takes one of the possible orders; a missing dependency shows rarely.', [CP, NCP, NT, TU, PI],
  [('control dependencies', 'build_model of each model')], ['results of train under every schedule'],
  technique='the read/write sets and dependencies of every training run, encoded as SMT ordering constraints; unordered pairs are executed '
            'symbolically in both orders and compared by z3', note=NTR)
p('C20', 'PITF sampling measures the right entries and its adjoint is the adjoint',
  'For each sampled index triple, sampling a pairwise matrix returns the matrix entry of the two modes of that pair divided by the square root '
  'of the size of the remaining mode, sampling the tensor returns its entry, and sampling the pairwise model returns the sum over the three '
  'pairs. The adjoint operator adds each measurement at its sampled position, repeated positions included, so the inner-product identity '
  'with sampling holds up to that square root, in the graph and the array implementation alike. Every index of every mode can be drawn.',
  ['inputs', 'configurations'], 'every matrix, tensor, measurement vector and set of index triples, repeated ones included',
  'The tests print or check one random case; repeated samples and the third pair are rarely hit.',
  [PO, PON], [('sampling', 'pitf_ops.py, pitf_ops_numpy.py: Pomega_mat, Pomega_tensor, Pomega_Pair, sample3D_rule'), ('adjoint', 'adjoint_operator')],
  ['pitf_ops functions'], technique=TEN, note=NTE)
p('C21', 'PITF centring, subspace projection, thresholding and shrinkage',
  'Centring subtracts the mean of each column and changes nothing when repeated; the random pairwise matrices are the centred product of the '
  'random factors, the first one with its overall mean added back. Thresholding and shrinkage replace every singular value of the centred '
  'matrix by its excess over the threshold, or zero, and keep the singular vectors; shrinkage of the first matrix adds the likewise '
  'thresholded mean. Both implementations agree.',
  ['inputs', 'configurations'], 'every matrix of either floating type, shape, rank and threshold', 'The tests print or compare one fixed matrix.',
  [PO, PON], [('linear maps', 'centralization, subspace, sample_rule4mat'), ('shrinkage', 'SVT, shrink')], ['pitf_ops functions'],
  technique=TEN, note=NTE + ' svd enters by its defining equations.')
p('C22', 'The cone projection lands in the cone at the nearest point',
  'Projecting a vector and a bound onto the second-order cone returns the pair itself when it lies in the cone, zero when it lies in the '
  'polar cone, and otherwise the nearest pair on the cone\'s boundary, in the graph and the array implementation.',
  ['inputs'], 'every vector (the zero vector included) and bound', 'The tests use one fixed vector.', [PO, PON],
  [('projection', 'cone_projection_operator')], ['pitf_ops functions'], technique=TEN, note=NTE)
p('C23', 'Every PITF recovery step is the stated dual update',
  'Every step of the pairwise-interaction recovery, in the graph and in the array implementation, sets the three matrices from the dual '
  'vector by adjoint, shrinkage and scaling, and adds the step length times the difference between the measured data and the measured '
  'matrices to the dual vector, always over the entries drawn at the start. The error rate and root mean square error reported are those of '
  'the same matrices.',
  ['inputs', 'histories'], 'every data tensor, set of samples, step length, threshold and number of steps',
  'The tests run one fixed problem and assert no iterates.',
  [PI, PN, PO, PON], [('iteration', 'pitf.py: build_model, train; pitf_numpy.py: exact_recovery')], ['results of train and exact_recovery'],
  [dict(name='y', meaning='the dual vector', where='pitf.py, pitf_numpy.py')], technique=TRN, note=NTR)
p('C24', 'Reading a tensor file reproduces exactly its entries',
  'Reading a comma-separated tensor file gives a sparse tensor with every listed entry and a dense tensor that holds each listed value at its '
  'index and zero elsewhere, with the smallest enclosing shape or the requested one. Reading again replaces the previous contents, and files '
  'of an unsupported type are refused.',
  ['inputs', 'configurations'], 'every set of distinct indices and values, any order of the lines, blank lines, order and shape',
  'The tests read one fixed file.', [RD], [('parsing and shape inference', 'reader.py: TensorReader.read')], ['full_data, sparse_data'],
  technique='symbolic execution of the reader on file contents with symbolic indices and values (solver-checked forks over the inferred shape); '
            'z3 decides every cell', note=NTE)
p('C25', 'Predictions and training state are consistent over a model\'s life',
  'Before training a model reports that it is not trained, publishes nothing and refuses predictions with its own error; after training, '
  'prediction returns the element of the published full tensor for every index. Training again starts afresh and replaces every published '
  'result.',
  ['inputs', 'histories', 'configurations'], 'every index, every call sequence over build, train and predict, every model',
  'The tests never predict.', [CP, NCP, NT, TU], [('life cycle flags', 'train, predict of each model')], ['predict, full, train_finish'],
  [dict(name='_full_tensor, _is_train_finish', meaning='published state', where='each model')], technique=TRN, note=NTR)
p('C26', 'Synthetic data is the model tensor plus non-negative noise',
  'The generated data has the requested shape and equals the extraction of the random non-negative factors (and core) plus noise that is '
  'non-negative and scales linearly with the requested amplitude, so that amplitude zero gives an exact low-rank tensor.',
  ['inputs', 'configurations'], 'every shape, rank, amplitude and random draw', 'Not tested at all.', [DG, T],
  [('generators', 'DataGenerator.py')], ['return values'], technique=TEN, note=NTE)
p('C27', 'Float32 results stay close to the exact real-number results',
  'For well-conditioned data, the published factors and reconstructions stay within a small relative distance of the exact real-number '
  'algorithm.', ['inputs'], 'every well-conditioned data tensor', 'The tests compare a few fixed values.', [O, CP, NCP, NT, TU],
  [('float32 kernels', 'TensorFlow')],
  na='The claim is about rounding in TensorFlow\'s compiled kernels (Eigen GEMM, LAPACK SVD, pinv): their floating-point evaluation order is '
     'not in this repository and cannot be encoded as bit-precise SMT within reach.')
p('C28', 'Training converges to a good approximation',
  'Given enough steps the decompositions reach a stationary point and recover exactly low-rank data to the requested tolerance.',
  ['inputs', 'histories'], 'every data tensor, start and number of steps', 'The tests see a few runs.', [CP, NCP, NT, TU, PI, PN],
  [('iterations', 'train of each model')],
  na='A limit statement over unboundedly many steps (and for CP not even true from every start): no bounded solver query decides it.')
p('C29', 'Several models can live in one process without influencing each other',
  'Building and training one model never changes what another model built in the same process computes or publishes, whether each has a '
  'graph of its own, they share one graph, they share one environment, or one model object is built and trained again.',
  ['histories', 'configurations'], 'every data tensor and random start of both models, every pair of models and way of sharing',
  'The tests train one model of each kind and never compare a model with itself in company.', [CP, NCP, NT, TU, PI, ENV],
  [('default graph and merged summaries', 'build_model and train of each model'), ('environment', 'env.py: Environment')],
  ['factors, core, full and history of every model'], technique=TRN, note=NTR)
p('C30', 'Written summaries hold the errors of the step they are filed under',
  'Training writes summaries to the summary path of the environment at the first step, at every validation step and at the last step, or at '
  'every step when verbose. Each holds the loss and the relative residual of exactly the step it is filed under, equal to the history of '
  'that step.',
  ['inputs', 'histories', 'configurations'], 'every data tensor, random start, validation interval and number of steps',
  'No test reads a written summary.', [CP, NCP, NT, TU], [('summaries', 'build_model and train of each model')],
  ['add_summary calls of the summary writer'], technique=TRN, note=NTR)
p('C31', 'No call changes what it was given',
  'Operations, tensor types, models, pairwise-interaction operators, generators and the reader leave every argument as it was: arrays keep '
  'their values and shape, lists their elements and order.',
  ['inputs', 'configurations'], 'every value of every array, list and tensor argument',
  'The tests use each argument once, so a changed one is never seen.', [O, T, CP, NCP, NT, TU, PI, PN, PO, PON, RD, DG],
  [('argument handling', 'every public function')], ['arguments after the call'], technique=TEN, note=NTE)


def main():
    import sys
    sys.path.insert(0, ROOT)
    claimed = set(open(os.path.join(ROOT, 'tools', 'claimed.txt')).read().split())
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for x in P:
            assert len(x['title']) <= 80, x['title']
            f.write(json.dumps(dict(id=x['id'], title=x['title'], statement=x['statement'],
                                    quantifier=dict(over=x['over'], text=x['quant']), why_tests_cant=x['why'],
                                    anchors=dict(files=x['files'], state=x['state'],
                                                 mechanism=[dict(name=a, where=b) for a, b in x['mech']],
                                                 observe_at=x['observe'], hook_needed=None))) + '\n')
    checks, na = [], []
    for x in P:
        if x['na']:
            na.append(dict(property=x['id'], reason=x['na']))
        elif x['id'] not in claimed:
            na.append(dict(property=x['id'], reason='the check is not built yet'))
        else:
            cmd = '/opt/venv/bin/python run_check.py %s --tier ' % x['id']
            checks.append(dict(property=x['id'], quick_cmd=cmd + 'quick', thorough_cmd=cmd + 'thorough',
                               evidence_file='evidence/%s.json' % x['id'], technique=x['technique'], level='model_checking',
                               level_note=x['note']))
    man = dict(version=1, setup_cmd='/opt/venv/bin/python tools/selfcheck.py', checks=checks, not_applicable=na,
               notes='No hooks: the checks import /repo unchanged and replace tf.Session, tf.constant and the summary writer around it.')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
