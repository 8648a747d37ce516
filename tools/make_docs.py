"""Writes properties.jsonl and MANIFEST.json. Run it after editing."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INIT = 'biggus/_init.py'
DASK = 'biggus/experimental/dask_engine.py'
GROUP = 'biggus/experimental/key_grouper.py'

P = []


def prop(id, title, statement, over, text, why, files, mechanism,
         observe, technique, note, level='exploration', hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mechanism=mechanism,
                  observe=observe, technique=technique, note=note,
                  level=level, hook=hook))


prop('C01', 'Indexing a wrapped data source is orthogonal and composes',
     'Selecting from an array which wraps a data source, with any '
     'combination of integers, slices with any step, sequences, boolean '
     'masks, ellipses and new axes, gives exactly the elements which '
     'applying each key to its own axis of the data gives. Selecting from a '
     'selection, any number of times, equals selecting from the '
     'intermediate result. This holds for sources which index like NumPy '
     'and for sources which index orthogonally.',
     ['inputs'], 'all data sources (dtype, 0 to 5 dimensions, empty '
     'dimensions, masked or not, either way of indexing) and all chains of '
     'valid keys',
     'The tests compare a table of about 100 fixed key sequences on a few '
     'shapes; composition is a product over keys, axes, steps and histories '
     'of selections.',
     [INIT], ['_ArrayAdapter._cleanup_new_key', '_ArrayAdapter.'
              '_remap_new_key', '_ArrayAdapter._getitem_full_keys',
              'NumpyArrayAdapter._apply_keys', 'OrthoArrayAdapter.'
              '_apply_keys', '_full_keys', '_sliced_shape'],
     ['shape and dtype of the selection', 'ndarray()', 'masked_array()',
      'keys which reach the data source'],
     'runtime monitoring: online differential oracle (NumPy, one axis at a '
     'time) over generated chains of selections, with recording data '
     'sources',
     'Generated chains of up to 4 selections; every evaluation is compared '
     'element by element with an independent orthogonal indexer.')

prop('C02', 'Stacks and mosaics place every element of their parts',
     'A stack or mosaic of arrays has exactly the elements of its parts, '
     'masked or not, at the positions which stacking or concatenating the '
     'parts\' values gives, for any nesting, shape, order and axis, and so '
     'does every selection from it. Replacing an item of a stack changes '
     'that item and nothing else, including selections made before.',
     ['inputs', 'histories'], 'all stacks and mosaics (1 to 3 dimensions of '
     'stack, any axis, empty tiles, nested, mixed kinds of parts), all '
     'chains of valid keys, all histories of item replacements',
     'The tests use one or two fixed stacks and mosaics of equal tiles with '
     'few keys; which tiles a selection touches depends on every '
     'combination of tile sizes, steps, signs and nesting.',
     [INIT], ['ArrayStack._getitem_full_keys', 'ArrayStack.__setitem__',
              'ArrayStack.multidim_array_stack', 'LinearMosaic.'
              '_getitem_full_keys', 'LinearMosaic.ndarray', 'LinearMosaic.'
              'masked_array'],
     ['shape and dtype', 'ndarray()', 'masked_array()', 'batched '
      'evaluation in chunks'],
     'runtime monitoring: online differential oracle (NumPy model of the '
     'parts) over generated nestings, selections and item replacements',
     'Random nestings, mixed kinds of parts, selections up to 3 deep, '
     'evaluation directly and through the engine.')

prop('C03', 'Views, casts and constants hold what NumPy would give',
     'Inserting axes, transposing, broadcasting, casting to another type '
     'and filling with a constant give exactly the values, masks, shape and '
     'type which NumPy gives for the same request, in any combination and '
     'however selected from. They do not depend on the type of the arguments '
     '(shapes and axes as lists, tuples or iterators), nor on what becomes '
     'of those afterwards.',
     ['inputs'], 'all compositions of new axes, transpositions, '
     'broadcasts, casts, constants and selections over all dtypes and '
     'shapes',
     'The tests check each view on its own with few fixed shapes and keys; '
     'bugs live in the composition of axis mappings, which is unbounded.',
     [INIT], ['NewAxesArray', 'BroadcastArray', 'TransposedArray',
              'AsDataTypeArray', 'ConstantArray', '_Array.astype',
              'BroadcastArray.broadcast_arrays'],
     ['shape and dtype', 'ndarray()', 'masked_array()'],
     'runtime monitoring: online differential oracle (NumPy views) over '
     'generated compositions of views and selections',
     'Compositions of up to 5 views with selections in between.')

prop('C04', 'Masks and fill-values survive every container',
     'Every element which is masked in a data source is masked in whatever '
     'is made of it by selecting, stacking, concatenating, viewing or '
     'casting, no other element is, and masking by value masks exactly the '
     'equal elements besides. Plain results have the fill-value of the '
     'source in place of masked elements, and the advertised fill-value is '
     'that of the data, or the default of the type where parts disagree.',
     ['inputs'], 'all containers over all masked sources (all, some, none '
     'or no mask; 0-dimensional; NaN and custom fill-values)',
     'The tests have a handful of masks; propagation must be right for '
     'every mask, path and selection, including scalars and fully masked '
     'data.',
     [INIT], ['_ArrayAdapter.fill_value', '_ArrayAdapter.ndarray',
              '_ArrayAdapter.masked_array', 'MaskValueArray',
              'ArrayStack.fill_value', 'LinearMosaic.fill_value',
              'ArrayContainer.fill_value'],
     ['fill_value', 'ndarray()', 'masked_array() mask, data and '
      'fill_value'],
     'runtime monitoring: online differential oracle (numpy.ma model of '
     'mask and fill-value) over generated masked structures',
     'Masks of every density, fill-values including NaN, all containers.')

prop('C05', 'What an array advertises is what evaluation delivers',
     'The advertised shape, type, number of dimensions and size of any '
     'array equal those of the evaluated result, plain or masked, however '
     'the array was made and however it is evaluated. Descriptions of the '
     'array agree with them.',
     ['inputs', 'programs'], 'all arrays of all kinds (containers, '
     'elementwise operations, aggregations, graphs of them and selections), '
     'all dtypes',
     'Metadata are computed separately from the data, once per kind of '
     'array; the tests compare them for fixed examples only.',
     [INIT], ['Array.nbytes', 'Array.ndim', 'size', '_sliced_shape',
              '_Aggregation.dtype', '_Elementwise.dtype',
              '_Elementwise.shape'],
     ['dtype/shape/ndim/nbytes/size()/repr before evaluation', 'dtype and '
      'shape of ndarray() and masked_array()', 'batched results'],
     'runtime monitoring: assertion of advertised against delivered '
     'metadata on every evaluation of generated arrays',
     'All kinds of arrays; metadata are read before and after evaluation.')

prop('C06', 'Elementwise operations on plain data equal NumPy',
     'Every elementwise function and operator gives the values, type and '
     'broadcast shape which NumPy gives for the same operands, and refuses '
     'what NumPy refuses, for operands of any type, shape and kind (virtual '
     'arrays, NumPy arrays, scalars, either way round).',
     ['inputs', 'programs'], 'all 68 functions and 6 operators over pairs '
     'of operands of 20 types, 0 to 5 dimensions, with broadcasting',
     'The tests check few operations with float examples; type promotion, '
     'broadcasting and operand order are a product over types, shapes and '
     'operations.',
     [INIT], ['_Elementwise.__init__', '_Elementwise._scalar_operand',
              '_ElementwiseStreamsHandler.process_chunks',
              'BroadcastArray.broadcast_arrays', '_ufunc_wrapper',
              'Array.__add__ and the other operators'],
     ['dtype and shape', 'ndarray()', 'ndarrays([...]) in chunks'],
     'runtime monitoring: online differential oracle (NumPy on the same '
     'operands) over every operation and generated operands',
     'Every exported function and operator with 20 dtypes.')

prop('C07', 'Elementwise operations on masked data equal numpy.ma',
     'Masked evaluation of an elementwise operation gives the values and '
     'mask which numpy.ma gives, where an element is masked exactly if an '
     'operand is masked there or the operation is undefined there. An '
     'operation without a masked meaning is refused rather than answered '
     'with unmasked data.',
     ['inputs', 'programs'], 'all operations over pairs of masked, partly '
     'masked and plain operands of 20 types, with broadcasting, in one or '
     'several chunks',
     'The tests check mask propagation for a few fixed examples; chunks in '
     'which nothing or everything is masked behave differently.',
     [INIT], ['_Elementwise.masked_array', '_Elementwise.streams_handler',
              '_ElementwiseStreamsHandler.process_chunks'],
     ['masked_array()', 'masked_arrays([...]) in chunks'],
     'runtime monitoring: online differential oracle (numpy.ma on the same '
     'operands) over every operation and generated masks',
     'Every operation with a masked equivalent, all mask densities.')

prop('C08', 'Aggregations of plain data equal NumPy',
     'Count, minimum, maximum, sum, mean, variance and standard deviation '
     'over any axis give the shape, type and values which NumPy gives for '
     'the whole data, whatever the type, shape, axis, degrees of freedom '
     'and chunks, and including NaN and infinite values.',
     ['inputs', 'configurations'], 'all statistics over all numeric types, '
     'shapes, axes, ddof and chunk sizes',
     'The tests run each statistic on one or two small arrays in few '
     'chunks; merging partial results must be right for every split.',
     [INIT], ['_AggregationStreamsHandler.process_chunks',
              '_CountStreamsHandler', '_MinStreamsHandler',
              '_MaxStreamsHandler', '_SumStreamsHandler',
              '_MeanStreamsHandler', '_StdStreamsHandler',
              '_VarStreamsHandler', '_normalise_axis'],
     ['ndarray()', 'ndarrays([...]) for 8 chunk sizes'],
     'runtime monitoring: online differential oracle (NumPy on the whole '
     'data) over generated data, axes and chunk sizes',
     'Every statistic with every numeric dtype, special values, chunk '
     'sizes from 1 element up.')

prop('C09', 'Aggregations of masked data use exactly the unmasked elements',
     'Aggregating masked data uses every unmasked element and no masked '
     'one, whatever value is behind the mask, and the result is masked '
     'exactly where no (or, for the mean, too small a fraction of) elements '
     'remain. Counts give the number of unmasked elements.',
     ['inputs', 'configurations'], 'all statistics over all masks '
     '(including wholly masked chunks, rows and data), types, axes, ddof, '
     'tolerances and chunk sizes',
     'The tests have few masks; the interplay of masks with chunk '
     'boundaries is a product of both.',
     [INIT], ['_CountMaskedStreamsHandler', '_MinMaskedStreamsHandler',
              '_MaxMaskedStreamsHandler', '_SumMaskedStreamsHandler',
              '_MeanMaskedStreamsHandler', '_StdMaskedStreamsHandler',
              '_VarMaskedStreamsHandler'],
     ['masked_array()', 'masked_arrays([...]) for 8 chunk sizes'],
     'runtime monitoring: online differential oracle (direct computation '
     'from the unmasked elements) over generated masks and chunk sizes',
     'Poisoned values behind the masks make any use of them visible.')

prop('C10', 'Selecting from a computation equals selecting from its result',
     'For any elementwise operation, aggregation or graph of them, and any '
     'keys, evaluating a selection of the computation gives the same '
     'values, mask and type as making the selection from the evaluated '
     'computation. This holds for selections of selections.',
     ['inputs', 'programs'], 'all expressions, all chains of valid keys',
     'The tests select from a few computations with a few keys; keys have '
     'to be translated through each operation, axis removal and broadcast.',
     [INIT], ['_Elementwise.__getitem__', '_Aggregation.__getitem__',
              '_Aggregation._getitem_full_keys',
              '_Elementwise._getitem_full_keys'],
     ['shape and dtype of the selection', 'ndarray()/masked_array()'],
     'runtime monitoring: metamorphic and differential oracle over '
     'generated expressions and selections',
     'Elementwise operations, aggregations and graphs up to 3 deep.')

prop('C11', 'How the data are split never changes a result',
     'An evaluation gives the same values, mask and type for every chunk '
     'size from a single element to everything at once, up to the rounding '
     'of floating-point accumulation.',
     ['configurations', 'inputs', 'programs'], 'all expressions, all '
     'settings of the maximum chunk size',
     'The tests change the chunk size in three places; each expression has '
     'as many ways of being split as elements.',
     [INIT], ['ProducerNode.chunk_index_gen', 'ConsumerNode.'
              'process_chunks', '_all_slices_inner', 'AllThreadedEngine.'
              'Group._make_node'],
     ['ndarrays/masked_arrays for every chunk size'],
     'runtime monitoring: metamorphic oracle (same evaluation under many '
     'chunk sizes) over generated expressions',
     'Chunk sizes from 1 element to everything, for each expression.')

prop('C12', 'Statistics are accurate however the data arrive',
     'Means, variances and standard deviations of floating-point and '
     'integer data agree with exact arithmetic up to the rounding error of '
     'a well-behaved algorithm, including data with a large offset, and '
     'variances are never negative.',
     ['inputs', 'configurations'], 'data with offsets up to 1e7 times '
     'their spread, integers near the extremes of their type, long series, '
     'all chunk sizes, ddof 0 to 2, masked or not',
     'The tests use small well-conditioned data, for which even a naive '
     'algorithm is accurate.',
     [INIT], ['_StdStreamsHandler.process_data', '_StdMaskedStreamsHandler'
              '.process_data', '_MeanStreamsHandler', '_SumStreamsHandler'],
     ['ndarray()/masked_array() for each chunk size'],
     'runtime monitoring: online oracle (exact rational arithmetic with a '
     'forward error bound) over ill-conditioned data',
     'Exact rational reference, so NumPy\'s own rounding plays no part.')

prop('C13', 'Nothing is read before an evaluation asks for it',
     'Creating, combining, selecting from, describing, copying and asking '
     'for the metadata of arrays never reads from a data source. Only '
     'evaluation does.',
     ['programs', 'histories'], 'all sequences of non-evaluating requests '
     'on all arrays',
     'No test observes reads; any of the many paths through which arrays '
     'are built could evaluate something behind the scenes.',
     [INIT], ['Array.__array__', 'ArrayStack.__init__', 'LinearMosaic.'
              '__init__', '_Elementwise.__init__', '_Aggregation.__init__',
              'ensure_array'],
     ['every read of a recording data source'],
     'runtime monitoring: recording data sources assert that no read '
     'happens during generated sequences of requests',
     'With a control evaluation that proves the recorder is connected.')

prop('C14', 'Only needed elements are read, and shared ones just once',
     'Evaluating a selection reads no element which the result does not '
     'depend on. Evaluating several arrays together reads each element of '
     'a data source which they share only once, as far as they need it in '
     'the same way.',
     ['programs', 'inputs', 'configurations'], 'all selections of all '
     'containers and expressions, and batches whose members share arrays',
     'No test counts element reads except for one example; the claim '
     'is about all structures, keys and batches.',
     [INIT], ['AllThreadedEngine.Group._make_node (node cache)',
              'ProducerNode.run', '_ArrayAdapter._getitem_full_keys',
              'LinearMosaic._getitem_full_keys', 'ndarrays',
              'masked_arrays'],
     ['which elements each read of a recording source covers'],
     'runtime monitoring: recording data sources log element-level reads; '
     'online checker against the elements which the NumPy model needs',
     'Reads are counted per element; every element has a unique value, so '
     'the model says which elements a selection needs.')

prop('C15', 'Evaluation holds a bounded number of bounded chunks',
     'Evaluating or saving an expression asks a data source for no more '
     'than the maximum chunk size at once, whatever the size of the data, '
     'and the number of chunks which have been read but not yet consumed '
     'stays below a constant which depends on the expression only.',
     ['configurations', 'schedules', 'programs'], 'all expressions, chunk '
     'sizes and relative speeds of producers and consumers',
     'Bounded memory is what the package exists for, but no test observes '
     'the size of reads or how far reading runs ahead.',
     [INIT], ['ProducerNode.chunk_index_gen', 'ConsumerNode queues '
              '(bounded)', '_all_slices_inner', 'save'],
     ['size of each read', 'reads which are ahead of the consumer'],
     'runtime monitoring: recording sources and instrumented queues check '
     'read sizes and read-ahead under delayed consumers',
     'Slow consumers are injected so that the read-ahead fills up.')

prop('C16', 'Saving writes every element exactly once, with its value',
     'Saving an array writes each element of the target exactly once and '
     'with the value (and mask) of the array there, in pieces no bigger '
     'than the maximum chunk size. If reading or writing fails, the error '
     'reaches the caller.',
     ['inputs', 'configurations', 'fault_sequences'], 'all arrays of 0 to '
     '5 dimensions (empty ones included), chunk sizes, plain or masked, and '
     'a failure of any read or write',
     'The tests save a few arrays; coverage and exactly-once must hold for '
     'every shape and chunk size.',
     [INIT], ['save', '_all_slices', '_all_slices_inner'],
     ['every write to a recording target', 'exceptions'],
     'runtime monitoring: recording target counts writes per element '
     '(exactly-once) and compares content, with injected failures',
     'Exactly-once is checked per element.', 'fault_enumeration')

prop('C17', 'Evaluating together equals evaluating one by one',
     'Evaluating any batch of arrays gives, in the order of the request, '
     'what evaluating each of them on its own gives, however they share '
     'data, subexpressions, axes of aggregation or are repeated, and again '
     'when evaluated again.',
     ['programs', 'configurations', 'histories'], 'all batches of up to 8 '
     'expressions over shared sources, with repeated and related members, '
     'all chunk sizes',
     'The tests evaluate a few pairs; sharing of intermediate results '
     'depends on the combination of all members.',
     [INIT], ['AllThreadedEngine.Group (grouping and node cache)',
              'AllThreadedEngine.ndarrays', 'ndarrays', 'masked_arrays'],
     ['results of ndarrays()/masked_arrays() and their order'],
     'runtime monitoring: differential oracle (NumPy model and evaluation '
     'one by one) over generated batches which share parts',
     'Repeated members, subexpressions, several axes of the same array.')

prop('C18', 'No schedule of the evaluation threads changes a result',
     'Every interleaving of the threads which evaluate an expression, and '
     'of several evaluations at the same time which share arrays, gives '
     'bit for bit the same results.',
     ['schedules', 'programs'], 'all interleavings of producers and '
     'consumers, and of concurrent evaluations by several threads',
     'The tests see whichever schedule the machine happens to choose, '
     'which is nearly always the same.',
     [INIT], ['ConsumerNode.abort/run/process_chunks', 'ProducerNode.run',
              'Node.output_chunk', 'AllThreadedEngine.Group.evaluate'],
     ['results', 'order of queue operations and reads (distinct '
      'interleavings are counted)'],
     'runtime monitoring: schedule perturbation (injected delays around '
     'every queue operation and read), bitwise oracle, distinct '
     'interleavings counted',
     'Over a thousand distinct observed interleavings per quick run.')

prop('C19', 'A failed read always surfaces, and never as a wrong result',
     'If reading a data source fails during an evaluation, at any point '
     'and with any exception, the evaluation raises, and never hangs or '
     'returns a result. Afterwards the same arrays evaluate correctly.',
     ['fault_sequences', 'programs', 'schedules'], 'a failure of any read '
     'of any source (or two at once) in any expression or batch, with any '
     'type of exception, under perturbed schedules',
     'The tests inject one failure into one expression; the failing read, '
     'the thread and the exception decide which clean-up path runs.',
     [INIT], ['Node.abort', 'ConsumerNode.run', 'ProducerNode.run',
              'AllThreadedEngine.Group.evaluate'],
     ['outcome of every evaluation with a fault', 'results afterwards'],
     'runtime monitoring: fault injection into every read in turn, '
     'watchdog with structural deadlock detection',
     'Each read of each source fails in turn.', 'fault_enumeration')

prop('C20', 'No evaluation thread is left behind',
     'When an evaluation returns or raises, whatever the reason, every '
     'thread which it started ends. An evaluation whose read never returns '
     'can be interrupted, and does not keep the process from ending.',
     ['fault_sequences', 'schedules', 'programs'], 'all outcomes of '
     'evaluation: success, failure of any read, refused operations, data '
     'which do not combine, concurrent failures',
     'The tests never look at the threads afterwards.',
     [INIT], ['Node.abort', 'ConsumerNode.run', 'AllThreadedEngine.Group.'
              'evaluate'],
     ['live threads after each evaluation and what they wait for'],
     'runtime monitoring: every thread start is recorded; afterwards each '
     'must end, or is shown to wait on a queue which nobody can serve',
     'Structural evidence only: no deadline decides (but for whether a '
     'process ends once its main thread has).',
     'fault_enumeration')

prop('C21', 'Evaluation changes neither the data nor other results',
     'Evaluating never changes a data source, an operand or a result which '
     'was returned before. Results of computations, casts, stacks and '
     'mosaics can be overwritten without an '
     'effect on later evaluations or on each other.',
     ['histories', 'programs'], 'all sequences of evaluations of arrays '
     'which share data, with the results overwritten in between',
     'The tests look at one result at a time; aliasing only shows when '
     'results are changed afterwards.',
     [INIT], ['_AggregationStreamsHandler (in-place accumulation)',
              'NdarrayNode.result', 'ConsumerNode.process_chunks',
              'BroadcastArray._broadcast_numpy_array'],
     ['digests of all data and results before and after'],
     'runtime monitoring: digests of sources and earlier results compared '
     'after every evaluation; results are overwritten to expose aliases',
     'Every source and result is checked after every step.')

prop('C22', 'The engines are interchangeable',
     'The graph-based engine gives the same results as the default one for '
     'any batch of arrays, plain or masked, called directly or installed '
     'as the engine of the package. Computations are evaluated by whichever '
     'engine is installed.',
     ['configurations', 'programs', 'schedules'], 'all batches of '
     'expressions and containers, chunk sizes and schedulers',
     'The tests run the graph-based engine on a few expressions with equal '
     'chunks.',
     [DASK, INIT], ['DaskGroup._make_stream_handler_nodes',
                    'DaskGroup._make_nodes', 'DaskGroup.combine',
                    'DaskGroup.collect', 'DaskEngine.ndarrays',
                    'Engine'],
     ['results of both engines', 'calls which reach an installed engine'],
     'runtime monitoring: differential oracle between the engines and the '
     'NumPy model over generated batches and chunk sizes',
     'Synchronous and threaded schedulers.')

prop('C23', 'Chunks are grouped into the finest common partition',
     'Grouping the chunks of several inputs gives groups which tile the '
     'whole shape, are bounded by exactly the boundaries which all inputs '
     'share, and contain each chunk of each input exactly once, however '
     'the slices are spelled and ordered and however many there are.',
     ['inputs'], 'all grids of chunks over up to 4 dimensions and 4 inputs, '
     'including repeated chunks and tens of thousands of them',
     'The tests have 15 fixed examples.',
     [GROUP], ['group_keys', 'dimension_group_to_lowest_common',
               'normalize_slice'],
     ['the groups'],
     'runtime monitoring: online oracle (set intersection of boundaries) '
     'over generated partitions',
     'Random partitions; one directed case with ten thousand chunks.')

prop('C24', 'Invalid requests are refused at once, without a read',
     'A request which can not be met (an index, sequence or mask out of '
     'bounds, too many or impossible keys, axes which do not exist or '
     'repeat, parts or operands which do not fit together) raises when it '
     'is made, before any data are read. Iterating over an array gives '
     'each of its items and ends.',
     ['inputs', 'programs'], 'all kinds of invalid request on all kinds of '
     'arrays',
     'The tests cover some errors for some kinds of array; a missing check '
     'gives wrong data or an endless iteration.',
     [INIT], ['_positive_key', '_full_keys', '_ArrayAdapter.'
              '_cleanup_new_key', 'ArrayStack.__init__', 'LinearMosaic.'
              '__init__', 'TransposedArray.__init__', '_normalise_axis',
              'BroadcastArray._compute_broadcast_shape'],
     ['exception or acceptance', 'reads of recording sources'],
     'runtime monitoring: generated invalid requests must raise before any '
     'recorded read, with valid neighbours as controls',
     'Each refusal is paired with a nearby valid request.')

prop('C25', 'Copies are faithful, and deep ones independent',
     'A shallow, deep or pickled copy of any array has the same metadata '
     'and evaluates to the same values and mask, and making it reads '
     'nothing. Deep and pickled copies are unaffected by later changes to '
     'the original\'s data or items, and share among themselves what the '
     'original shares.',
     ['programs', 'histories'], 'all arrays of all kinds, all sequences of '
     'copies, evaluations, overwritten data and replaced items',
     'The tests deep-copy one stack; any state an array gains has to be '
     'copied with it.',
     [INIT], ['ArrayStack.__deepcopy__', 'Array attributes of all classes'],
     ['metadata', 'evaluations', 'reads of recording sources and of their '
      'copies'],
     'runtime monitoring: differential oracle on copies and originals, '
     'with recording sources, over generated histories',
     'All kinds of arrays, pickle protocols 2 to 4.')

prop('C26', 'An evaluation reflects the present state of the data',
     'However an array has been derived, and however often it or anything '
     'it is made of has been evaluated before (by whichever engine, in '
     'whatever chunks, saved, or in evaluations which failed), evaluating '
     'it gives what its sources hold, and the stacks it refers to contain, '
     'at that time: overwriting a source, replacing an item of a stack or '
     'overwriting an earlier result is never missed and never leaks into '
     'anything else. What was selected from a stack is selected from the '
     'items it had then.',
     ['histories', 'programs'], 'all histories of derivations, '
     'evaluations, changes to the data and failures',
     'Tests build an expression and evaluate it once; anything which is '
     'kept between evaluations goes stale only in a history.',
     [INIT, DASK], ['AllThreadedEngine', 'Array evaluation methods of all '
                    'classes', 'ArrayStack.__setitem__', 'save'],
     ['results of every evaluation of a history', 'state of the sources and '
      'stacks at the time'],
     'runtime monitoring: model-based oracle over random histories of '
     'derivations, evaluations, changes and failures',
     'Histories of 20 to 45 steps over up to 30 arrays.')


prop('C27', 'What an array costs does not depend on its extent',
     'Making, combining, viewing, casting, computing with, selecting from '
     '(with integers, slices or short sequences), describing, iterating '
     'over and copying arrays takes time and memory which depend on the '
     'expression and the keys only, never on how many elements there are, '
     'and so does evaluating a small selection. This holds for any number '
     'of elements, including more than an integer of the machine can '
     'count, and each of the selected elements is the right one.',
     ['structures', 'keys', 'extents'], 'all expressions and keys over '
     'dimensions of up to 2**50 elements',
     'Tests use arrays which fit into memory, where listing every index of '
     'a dimension goes unnoticed.',
     [INIT], ['_ArrayAdapter._getitem_full_keys',
              'LinearMosaic._getitem_full_keys', '_sliced_shape',
              'Array.nbytes', 'Array.__iter__'],
     ['CPU time and resident memory of every step', 'elements of the final '
      'selection', 'keys with which sources are read'],
     'runtime monitoring: sources of astronomic extents which compute their '
     'elements on demand, a profiling timer as a monitor of CPU time and '
     'memory during every step, and a symbolic oracle for each element',
     'Expressions of up to 8 steps; dimensions of up to 2**50.')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            json.dump({
                'id': p['id'], 'title': p['title'],
                'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {
                    'files': p['files'],
                    'mechanism': [{'name': m, 'where': '%s:%s' % (
                        p['files'][0], m.split(' ')[0])}
                        for m in p['mechanism']],
                    'observe_at': p['observe'],
                    'hook_needed': p['hook'],
                }}, f)
            f.write('\n')
    manifest = {
        'version': 1,
        'setup_cmd': '/opt/venv/bin/python check.py --setup',
        'checks': [{
            'property': p['id'],
            'quick_cmd': '/opt/venv/bin/python check.py %s --tier quick'
            % p['id'],
            'thorough_cmd': '/opt/venv/bin/python check.py %s --tier '
            'thorough' % p['id'],
            'technique': p['technique'],
            'level': p['level'],
            'level_note': p['note'],
        } for p in P],
        'not_applicable': [],
        'notes': 'No hooks in /repo: data sources, targets, queues and '
                 'threads are instrumented from the outside. Exit status 2 '
                 'means inconclusive (the monitors did not observe enough).',
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
