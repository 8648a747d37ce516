From 6fbca8ceb40a83fb86c60ef2cd6a039f3568e3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 01/56] fix: min/max over an axis which spans several chunks

---
 biggus/_init.py | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index cd78b54..c3c86a1 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2329,7 +2329,7 @@ class _CountMaskedStreamsHandler(_AggregationStreamsHandler):
 
 class _MinStreamsHandler(_AggregationStreamsHandler):
     def bootstrap(self, processed_chunk_shape):
-        self.result = np.zeros(processed_chunk_shape, dtype=self.array.dtype)
+        self.result = None
 
     def finalise(self):
         array = self.result
@@ -2340,12 +2340,17 @@ class _MinStreamsHandler(_AggregationStreamsHandler):
         return chunk
 
     def process_data(self, data):
-        self.result = np.min(data, axis=self.axis)
+        result = np.min(data, axis=self.axis)
+        if self.result is not None:
+            result = np.minimum(self.result, result)
+        self.result = result
 
 
 class _MinMaskedStreamsHandler(_AggregationStreamsHandler):
     def bootstrap(self, processed_chunk_shape):
-        self.result = np.zeros(processed_chunk_shape, dtype=self.array.dtype)
+        # Start out all masked, and unmask if something is not masked.
+        self.result = np.ma.masked_all(processed_chunk_shape,
+                                       dtype=self.array.dtype)
 
     def finalise(self):
         array = self.result
@@ -2356,12 +2361,16 @@ class _MinMaskedStreamsHandler(_AggregationStreamsHandler):
         return chunk
 
     def process_data(self, data):
-        self.result = np.min(data, axis=self.axis)
+        shape = list(data.shape)
+        shape[self.axis] = 1
+        data = np.ma.concatenate([self.result.reshape(shape), data],
+                                 axis=self.axis)
+        self.result = np.ma.array(np.min(data, axis=self.axis))
 
 
 class _MaxStreamsHandler(_AggregationStreamsHandler):
     def bootstrap(self, processed_chunk_shape):
-        self.result = np.zeros(processed_chunk_shape, dtype=self.array.dtype)
+        self.result = None
 
     def finalise(self):
         array = self.result
@@ -2372,12 +2381,17 @@ class _MaxStreamsHandler(_AggregationStreamsHandler):
         return chunk
 
     def process_data(self, data):
-        self.result = np.max(data, axis=self.axis)
+        result = np.max(data, axis=self.axis)
+        if self.result is not None:
+            result = np.maximum(self.result, result)
+        self.result = result
 
 
 class _MaxMaskedStreamsHandler(_AggregationStreamsHandler):
     def bootstrap(self, processed_chunk_shape):
-        self.result = np.zeros(processed_chunk_shape, dtype=self.array.dtype)
+        # Start out all masked, and unmask if something is not masked.
+        self.result = np.ma.masked_all(processed_chunk_shape,
+                                       dtype=self.array.dtype)
 
     def finalise(self):
         array = self.result
@@ -2388,7 +2402,11 @@ class _MaxMaskedStreamsHandler(_AggregationStreamsHandler):
         return chunk
 
     def process_data(self, data):
-        self.result = np.max(data, axis=self.axis)
+        shape = list(data.shape)
+        shape[self.axis] = 1
+        data = np.ma.concatenate([self.result.reshape(shape), data],
+                                 axis=self.axis)
+        self.result = np.ma.array(np.max(data, axis=self.axis))
 
 
 class _SumStreamsHandler(_AggregationStreamsHandler):
-- 
2.43.0


From 9232f8cdcd76da2b5e5a43839358ac68545aed53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 02/56] fix: accumulate means in the result dtype, and ignore
 wholly masked chunks

---
 biggus/_init.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index c3c86a1..954f7d5 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2456,8 +2456,11 @@ class _MeanStreamsHandler(_AggregationStreamsHandler):
         super(_MeanStreamsHandler, self).__init__(array, axis)
 
     def bootstrap(self, processed_chunk_shape):
+        # Accumulate in the result dtype, as the dtype of the source might
+        # not be able to represent the total.
+        self._dtype = (np.zeros(1, dtype=self.array.dtype) / 1.).dtype
         self.running_total = np.zeros(processed_chunk_shape,
-                                      dtype=self.array.dtype)
+                                      dtype=self._dtype)
 
     def finalise(self):
         array = self.running_total / self.array.shape[self.axis]
@@ -2468,7 +2471,7 @@ class _MeanStreamsHandler(_AggregationStreamsHandler):
         return chunk
 
     def process_data(self, data):
-        self.running_total += np.sum(data, axis=self.axis)
+        self.running_total += np.sum(data, axis=self.axis, dtype=self._dtype)
 
 
 class _MeanMaskedStreamsHandler(_AggregationStreamsHandler):
@@ -2478,9 +2481,12 @@ class _MeanMaskedStreamsHandler(_AggregationStreamsHandler):
 
     def bootstrap(self, processed_chunk_shape):
         shape = processed_chunk_shape
-        self.running_count = np.zeros(shape, dtype=self.array.dtype)
-        self.running_masked_count = np.zeros(shape, dtype=self.array.dtype)
-        self.running_total = np.zeros(shape, dtype=self.array.dtype)
+        self.running_count = np.zeros(shape, dtype=int)
+        self.running_masked_count = np.zeros(shape, dtype=int)
+        # Accumulate in the result dtype, as the dtype of the source might
+        # not be able to represent the total.
+        self._dtype = (np.zeros(1, dtype=self.array.dtype) / 1.).dtype
+        self.running_total = np.zeros(shape, dtype=self._dtype)
 
     def finalise(self):
         # Avoid any runtime-warning for divide by zero.
@@ -2503,7 +2509,8 @@ class _MeanMaskedStreamsHandler(_AggregationStreamsHandler):
     def process_data(self, data):
         self.running_count += np.ma.count(data, axis=self.axis)
         self.running_masked_count += np.ma.count_masked(data, axis=self.axis)
-        self.running_total += np.sum(data, axis=self.axis)
+        self.running_total += np.sum(data.filled(0), axis=self.axis,
+                                     dtype=self._dtype)
 
 
 class _StdStreamsHandler(_AggregationStreamsHandler):
-- 
2.43.0


From 4aeac0d1b98b085fc79517a870378efd27b23316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 03/56] fix: masked sum of data without a mask

---
 biggus/_init.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 954f7d5..659048f 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2443,7 +2443,7 @@ class _SumMaskedStreamsHandler(_AggregationStreamsHandler):
         return chunk
 
     def process_data(self, data):
-        self.mask &= np.all(data.mask, axis=self.axis)
+        self.mask &= np.all(ma.getmaskarray(data), axis=self.axis)
         self.running_total += np.sum(data.filled(0), axis=self.axis)
 
 
-- 
2.43.0


From f98a920930d2ee1160808530a7f5878e387f0cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 04/56] fix: std/var when the first chunk has a single element
 along the axis

---
 biggus/_init.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 659048f..f560973 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2528,6 +2528,7 @@ class _StdStreamsHandler(_AggregationStreamsHandler):
     def bootstrap(self, processed_chunk_shape):
         self.k = 1
         self._dtype = (np.zeros(1, dtype=self.array.dtype) / 1.).dtype
+        self.a = None
         self.q = np.zeros(processed_chunk_shape, dtype=self._dtype)
 
     def finalise(self):
@@ -2542,7 +2543,7 @@ class _StdStreamsHandler(_AggregationStreamsHandler):
     def process_data(self, data):
         data = np.rollaxis(data, self.axis).astype(self._dtype)
 
-        if self.k == 1:
+        if self.a is None:
             self.a = data[0]
             data = data[1:]
 
-- 
2.43.0


From d63f03b955cddb0a083a7c5e5dd7d16b1a69c66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 05/56] fix: std/var divisor is never negative

---
 biggus/_init.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index f560973..3d3541e 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2532,7 +2532,7 @@ class _StdStreamsHandler(_AggregationStreamsHandler):
         self.q = np.zeros(processed_chunk_shape, dtype=self._dtype)
 
     def finalise(self):
-        self.q /= (self.k - self.ddof)
+        self.q /= builtins.max(self.k - self.ddof, 0)
         array = np.sqrt(self.q)
         # Promote array-scalar to 0-dimensional array.
         if array.ndim == 0:
@@ -2584,7 +2584,7 @@ class _StdMaskedStreamsHandler(_AggregationStreamsHandler):
         self.current_shape = processed_chunk_shape
 
     def finalise(self):
-        mask = self.running_count == 0
+        mask = self.running_count <= builtins.max(self.ddof, 0)
         denominator = ma.array(self.running_count, mask=mask) - self.ddof
         q = ma.array(self.q, mask=mask) / denominator
         array = ma.sqrt(q)
-- 
2.43.0


From 2cfd716d2929494c5f2a84b763f4645ac745fc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 06/56] fix: std/var of complex values

---
 biggus/_init.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 3d3541e..a6c4647 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2556,7 +2556,7 @@ class _StdStreamsHandler(_AggregationStreamsHandler):
             self.a += temp
 
             # Compute q(k).
-            temp *= temp
+            temp *= np.conj(temp)
             temp *= self.k * (self.k - 1)
             self.q += temp
 
@@ -2615,7 +2615,7 @@ class _StdMaskedStreamsHandler(_AggregationStreamsHandler):
             self.a[do_stuff] += temp
 
             # Compute q(k).
-            temp *= temp
+            temp *= np.conj(temp)
             temp *= (self.running_count[do_stuff] *
                      (self.running_count[do_stuff] - 1))
             self.q[do_stuff] += temp
-- 
2.43.0


From 47d4b799a2738dfe9e7dddca4fee1d3b601c7e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 07/56] fix: mdtol of a mean which is a single wholly masked
 value

---
 biggus/_init.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index a6c4647..a5192a2 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2494,14 +2494,15 @@ class _MeanMaskedStreamsHandler(_AggregationStreamsHandler):
         denominator = np.ma.array(self.running_count, mask=mask, dtype=float)
         array = np.ma.array(self.running_total, mask=mask) / denominator
         # Promote array-scalar to 0-dimensional array.
+        # (We need a copy because it might be the read-only `ma.masked`.)
         if array.ndim == 0:
-            array = np.ma.array(array)
+            array = np.ma.array(array, copy=True)
         # Apply masked/missing data threshold (mdtol).
         if self._mdtol < 1:
             mask_update = np.true_divide(self.running_masked_count,
                                          self.running_masked_count +
                                          self.running_count) > self._mdtol
-            array.mask |= mask_update
+            array.mask = ma.getmaskarray(array) | mask_update
 
         chunk = Chunk(self.current_keys, array)
         return chunk
-- 
2.43.0


From 213fd87989f673d6522f304dc8f403ed0787e009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 08/56] fix: batch evaluations which need the same array in
 different chunk sequences

---
 biggus/_init.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index a5192a2..694cac5 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -367,7 +367,14 @@ class AllThreadedEngine(Engine):
             return 'Group({}, {})'.format(self.arrays, self.indices)
 
         def _make_node(self, array, iteration_order, masked):
-            cache_key = id(array)
+            # A node can only be shared by those consumers which need its
+            # chunks in the same sequence. For a source of data this is just
+            # determined by the dimensions which get split into chunks.
+            sequence = tuple(iteration_order)
+            if not hasattr(array, 'streams_handler'):
+                cuts = _all_slices_inner(array.shape)
+                sequence = tuple(i for i in sequence if len(cuts[i]) > 1)
+            cache_key = (id(array), sequence)
             node = self._node_cache.get(cache_key, None)
             if node is None:
                 if hasattr(array, 'streams_handler'):
-- 
2.43.0


From 7fe289a27860d2e4c5dc5ad564ed75f6493bc2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 09/56] fix: elementwise operations on sources which are split
 into different chunks

---
 biggus/_init.py | 44 +++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 694cac5..a6fe79e 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -362,10 +362,50 @@ class AllThreadedEngine(Engine):
             self.arrays = arrays
             self.indices = indices
             self._node_cache = {}
+            self._sequence_cache = {}
 
         def __repr__(self):
             return 'Group({}, {})'.format(self.arrays, self.indices)
 
+        def _chunk_sequence(self, array, iteration_order, masked):
+            """
+            Determine the sequence of chunks which the node for the given
+            array will emit.
+
+            Returns
+            -------
+            streamable : bool
+                Whether the array can be computed by processing the chunks
+                of its sources in lock-step. That's not possible when its
+                sources are split into different chunks.
+            sequence : list of (int, list of slice)
+                Each dimension which is split, with its slices. The slowest
+                varying dimension is first.
+
+            """
+            cache_key = (id(array), tuple(iteration_order))
+            if cache_key in self._sequence_cache:
+                return self._sequence_cache[cache_key]
+
+            streamable = hasattr(array, 'streams_handler')
+            if streamable:
+                handler = array.streams_handler(masked)
+                order = handler.input_iteration_order(iteration_order)
+                sequences = [self._chunk_sequence(source, order, masked)[1]
+                             for source in array.sources]
+                sequence = sequences[0]
+                streamable = all(other == sequence for other in sequences)
+            if not streamable:
+                cuts = _all_slices_inner(array.shape, always_slices=True)
+                sequence = [(i, list(cuts[i])) for i in iteration_order
+                            if len(cuts[i]) > 1]
+            elif hasattr(handler, 'axis'):
+                # Aggregating a dimension removes it from the chunks.
+                sequence = [(i if i < handler.axis else i - 1, slices)
+                            for i, slices in sequence if i != handler.axis]
+            self._sequence_cache[cache_key] = (streamable, sequence)
+            return streamable, sequence
+
         def _make_node(self, array, iteration_order, masked):
             # A node can only be shared by those consumers which need its
             # chunks in the same sequence. For a source of data this is just
@@ -377,7 +417,9 @@ class AllThreadedEngine(Engine):
             cache_key = (id(array), sequence)
             node = self._node_cache.get(cache_key, None)
             if node is None:
-                if hasattr(array, 'streams_handler'):
+                streamable, _ = self._chunk_sequence(array, iteration_order,
+                                                     masked)
+                if streamable:
                     node = StreamsHandlerNode(array,
                                               array.streams_handler(masked))
                     iteration_order = node.input_iteration_order(
-- 
2.43.0


From 7e87fa34117c10cf913b3d5aeb2d55672f310a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 10/56] fix: a failure in one part of an evaluation must not
 leave the rest waiting forever

---
 biggus/_init.py | 54 +++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 52 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index a6fe79e..c1961fc 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -98,6 +98,7 @@ class Node(six.with_metaclass(ABCMeta, object)):
 
     def __init__(self):
         self.output_queues = []
+        self._output_lock = threading.Lock()
 
     def abort(self):
         """Send the abort signal to all registered output queues."""
@@ -112,6 +113,19 @@ class Node(six.with_metaclass(ABCMeta, object)):
         """
         self.output_queues.append(output_queue)
 
+    def remove_output_queue(self, output_queue):
+        """
+        Stop the queue from receiving any more output from this Node.
+
+        The consumer of the queue must discard its content afterwards, in
+        case this Node is waiting for room in the queue.
+
+        """
+        with self._output_lock:
+            # NB. Don't modify the list, as it might be being iterated.
+            self.output_queues = [other for other in self.output_queues
+                                  if other is not output_queue]
+
     def output(self, chunk):
         """
         Dispatch the given Chunk onto all the registered output queues.
@@ -185,6 +199,9 @@ class ProducerNode(Node):
             chunk_index = self.chunk_index_gen(self.array.shape,
                                                self.iteration_order)
             for key in chunk_index:
+                if not self.output_queues:
+                    # Nobody wants the rest of the data.
+                    return
                 # Now we have the slices that describe the next chunk.
                 # For example, key might be equivalent to
                 # `[11:12, 0:3, :, :]`.
@@ -216,6 +233,7 @@ class ConsumerNode(Node):
     """
 
     def __init__(self):
+        self.input_nodes = []
         self.input_queues = []
         super(ConsumerNode, self).__init__()
 
@@ -227,10 +245,28 @@ class ConsumerNode(Node):
         registers each queue as an output of its corresponding node.
 
         """
+        self.input_nodes = list(input_nodes)
         self.input_queues = [queue.Queue(maxsize=3) for _ in input_nodes]
         for input_node, input_queue in zip(input_nodes, self.input_queues):
             input_node.add_output_queue(input_queue)
 
+    def detach(self):
+        """
+        Stop receiving chunks from the input nodes.
+
+        Without this an input node would wait forever for us to make room in
+        its output queue, along with everything else which depends on it.
+
+        """
+        for input_node, input_queue in zip(self.input_nodes,
+                                           self.input_queues):
+            input_node.remove_output_queue(input_queue)
+            try:
+                while True:
+                    input_queue.get_nowait()
+            except queue.Empty:
+                pass
+
     @abstractmethod
     def finalise(self):
         """
@@ -245,6 +281,10 @@ class ConsumerNode(Node):
         """
         pass
 
+    def abandoned(self):
+        """Whether there is nobody left to receive the output."""
+        return not self.output_queues
+
     @abstractmethod
     def process_chunks(self, chunks):
         """Process one chunk from each input node."""
@@ -266,6 +306,8 @@ class ConsumerNode(Node):
                     return
                 if any(chunk is QUEUE_FINISHED for chunk in input_chunks):
                     break
+                if self.abandoned():
+                    return
                 self.output(self.process_chunks(input_chunks))
             # Finalise the final chunk (process_chunks does this for all
             # but the last chunk).
@@ -276,6 +318,8 @@ class ConsumerNode(Node):
         else:
             for queue in self.output_queues:
                 queue.put(QUEUE_FINISHED)
+        finally:
+            self.detach()
 
 
 class StreamsHandlerNode(ConsumerNode):
@@ -315,6 +359,9 @@ class NdarrayNode(ConsumerNode):
             self.result = np.empty(array.shape, dtype=array.dtype)
         super(NdarrayNode, self).__init__()
 
+    def abandoned(self):
+        return False
+
     def abort(self):
         self.result = None
 
@@ -456,10 +503,13 @@ class AllThreadedEngine(Engine):
                 node = self._make_node(array, iteration_order, masked)
                 result_node = NdarrayNode(array, masked)
                 result_node.add_input_nodes([node])
-                result_threads.append(result_node.thread())
                 result_nodes.append(result_node)
 
-            # Start up all the producer/computation threads.
+            # Start up all the result threads (but only once we know that
+            # every array can be evaluated), and then all the
+            # producer/computation threads.
+            for node in result_nodes:
+                result_threads.append(node.thread())
             for node in six.itervalues(self._node_cache):
                 node.thread()
 
-- 
2.43.0


From e1744ea4e6eee8ffb9afb67858fc9a3bf42c6dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 11/56] fix: elementwise operations on 0-dimensional arrays
 give arrays, not scalars

---
 biggus/_init.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index c1961fc..701e031 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -3154,6 +3154,9 @@ class _Elementwise(ComputedArray):
     def ndarray(self):
         np_operands = ndarrays(self.sources)
         result = self._numpy_op(*np_operands)
+        # Promote array-scalar to 0-dimensional array.
+        if not isinstance(result, np.ndarray):
+            result = np.array(result)
         return result
 
     def masked_array(self):
@@ -3162,6 +3165,9 @@ class _Elementwise(ComputedArray):
                             ''.format(self._numpy_op.__name__))
         ma_operands = masked_arrays(self.sources)
         result = self._ma_op(*ma_operands)
+        # Promote array-scalar (or `ma.masked`) to 0-dimensional array.
+        if result is ma.masked or not ma.isMaskedArray(result):
+            result = ma.array(result, dtype=self.dtype)
         return result
 
     def streams_handler(self, masked):
-- 
2.43.0


From d25c9cd9448bd584a8496b09b187b054f98bef3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:13 +0000
Subject: [PATCH 12/56] fix: elementwise results with a Python scalar operand
 have the advertised dtype

---
 biggus/_init.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index 701e031..c22bbe3 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -3098,6 +3098,8 @@ class _Elementwise(ComputedArray):
             initial_array2 = array2
 
             # Dual input elementwise
+            if type(array2) is int or type(array2) is float:
+                array2 = self._scalar_operand(array1, array2, numpy_op)
             array2 = ensure_array(array2)
 
             # Broadcast both arrays to the full broadcast shape.
@@ -3126,6 +3128,23 @@ class _Elementwise(ComputedArray):
         self._numpy_op = numpy_op
         self._ma_op = ma_op
 
+    @staticmethod
+    def _scalar_operand(array, scalar, numpy_op):
+        # Return the Python int or float as an Array with the dtype which
+        # NumPy would give it when combined with `array`. Otherwise the
+        # result would have a different dtype from the one we advertise.
+        ones = np.ones(1, dtype=array.dtype)
+        result_dtype = numpy_op(ones, scalar).dtype
+        for dtype in (np.result_type(ones, scalar), result_dtype):
+            try:
+                other = np.ones(1, dtype=dtype)
+                if numpy_op(ones, other).dtype == result_dtype:
+                    return ConstantArray([], scalar, dtype=dtype)
+            except TypeError:
+                # e.g. ldexp needs an int, regardless of `array`.
+                pass
+        return ConstantArray([], scalar)
+
     @property
     def dtype(self):
         return self._dtype
-- 
2.43.0


From b483c27d41b64fab75bd8ae712f5e39975fd8bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 13/56] fix: negative and boolean keys for the tiled axis of a
 LinearMosaic

---
 biggus/_init.py | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index c22bbe3..5b119fb 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2097,13 +2097,14 @@ class LinearMosaic(Array):
             axis_lengths = [tile.shape[axis] for tile in self._tiles]
             offsets = np.cumsum([0] + axis_lengths[:-1])
             splits = offsets - 1
-            axis_key = keys[axis]
+            size = self.shape[axis]
+            axis_key = _positive_key(keys[axis], size, axis)
             if _is_scalar(axis_key):
                 # Find the single relevant tile
                 tile_index = np.searchsorted(splits, axis_key) - 1
                 tile = self._tiles[tile_index]
                 tile_indices = list(keys)
-                tile_indices[axis] -= offsets[tile_index]
+                tile_indices[axis] = axis_key - offsets[tile_index]
                 result = tile[tuple(tile_indices)]
             elif isinstance(axis_key, (slice, collections.Iterable)) and \
                     not isinstance(axis_key, six.string_types):
@@ -2111,7 +2112,6 @@ class LinearMosaic(Array):
                 # NB. If the stride is large enough, this might not be a
                 # contiguous subset of self._tiles.
                 if isinstance(axis_key, slice):
-                    size = self.shape[axis]
                     all_axis_indices = range(*axis_key.indices(size))
                 else:
                     all_axis_indices = tuple(axis_key)
@@ -3383,6 +3383,33 @@ def _sliced_shape(shape, keys):
     return sliced_shape
 
 
+def _positive_key(key, size, axis):
+    """
+    Return the equivalent of a key for a dimension of the given size, where
+    integer keys are positive and any other sequence (including a boolean
+    array) is replaced with a tuple of positive integers.
+
+    Raises IndexError for keys which are out of bounds.
+
+    """
+    def positive(index):
+        if not -size <= index < size:
+            raise IndexError('index {} is out of bounds for axis {} with '
+                             'size {}'.format(index, axis, size))
+        return index + size if index < 0 else index
+
+    if _is_scalar(key):
+        key = positive(key)
+    elif isinstance(key, np.ndarray) and key.dtype == np.dtype('bool'):
+        if key.shape != (size,):
+            raise IndexError('boolean index did not match axis {} with size '
+                             '{}'.format(axis, size))
+        key = tuple(np.flatnonzero(key))
+    elif isinstance(key, (tuple, list, np.ndarray)):
+        key = tuple(positive(index) for index in key)
+    return key
+
+
 def _full_keys(keys, ndim):
     """
     Given keys such as those passed to ``__getitem__`` for an
-- 
2.43.0


From d1121a298546214d4d52ba568461a9c1b1d49854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 14/56] fix: order of the tiles of a LinearMosaic for a
 negative step

---
 biggus/_init.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 5b119fb..9341c81 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2137,9 +2137,6 @@ class LinearMosaic(Array):
                         tile_slice[axis] = axis_indices
 
                     tiles.append(tile[tuple(tile_slice)])
-                if isinstance(axis_key, slice) and \
-                        axis_key.step is not None and axis_key.step < 0:
-                    tiles.reverse()
                 # Adjust the axis of the new mosaic to account for any
                 # scalar keys prior to our current mosaic axis.
                 new_axis = axis
-- 
2.43.0


From 8a84f987f5e5ea7523d8dd9e693786898d9e6ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:18 +0000
Subject: [PATCH 15/56] fix: empty selections from the tiled axis of a
 LinearMosaic

---
 biggus/_init.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index 9341c81..bd98835 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2137,6 +2137,10 @@ class LinearMosaic(Array):
                         tile_slice[axis] = axis_indices
 
                     tiles.append(tile[tuple(tile_slice)])
+                if not tiles:
+                    # We still need something to define the other axes.
+                    tile_slice[axis] = slice(0, 0)
+                    tiles.append(self._tiles[0][tuple(tile_slice)])
                 # Adjust the axis of the new mosaic to account for any
                 # scalar keys prior to our current mosaic axis.
                 new_axis = axis
-- 
2.43.0


From 016c99054374550c4685b269d28099a55a08e0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:30 +0000
Subject: [PATCH 16/56] fix: slices of a LinearMosaic should slice its tiles

---
 biggus/_init.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index bd98835..d7d1b1c 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2133,6 +2133,14 @@ class LinearMosaic(Array):
                         step = 1
                         stop = start + 1
                         tile_slice[axis] = slice(start, stop, step)
+                    elif isinstance(axis_key, slice):
+                        # Not every kind of Array can be indexed with a
+                        # sequence, so stick with a slice.
+                        start = axis_indices[0]
+                        step = axis_indices[1] - start
+                        stop = axis_indices[-1] + step
+                        tile_slice[axis] = slice(
+                            start, stop if stop >= 0 else None, step)
                     else:
                         tile_slice[axis] = axis_indices
 
-- 
2.43.0


From 3edfeed19dee623504ff722a2f6613df3a5a1f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 17/56] fix: boolean keys for adapters with other sequences of
 keys

---
 biggus/_init.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index d7d1b1c..1c305d5 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1421,7 +1421,7 @@ class _ArrayAdapter(Array):
         result_keys = []
         for axis, (key, size) in enumerate(zip(keys, concrete.shape)):
             result_key = self._cleanup_new_key(key, size, axis)
-            result_keys.append(key)
+            result_keys.append(result_key)
         self._keys = tuple(result_keys)
 
     @property
@@ -1464,6 +1464,8 @@ class _ArrayAdapter(Array):
                       'of size {0} is greater than axis {1} with ' \
                       'size {2}'.format(key.size, axis, size)
                 raise IndexError(msg)
+            # The equivalent indices can be combined with any other keys.
+            key = _positive_key(key, size, axis)
         elif isinstance(key, collections.Iterable) and \
                 not isinstance(key, six.string_types):
             # Make sure we capture the values in case we've
@@ -1503,7 +1505,8 @@ class _ArrayAdapter(Array):
                       'of size {0} is greater than axis {1} with ' \
                       'size {2}'.format(new_key.size, axis, size)
                 raise IndexError(msg)
-            result_key = tuple(np.array(indices)[new_key])
+            new_key = _positive_key(new_key, size, axis)
+            result_key = tuple(indices[key] for key in new_key)
         elif isinstance(new_key, collections.Iterable) and \
                 not isinstance(new_key, six.string_types):
             # Make sure we capture the values in case we've
-- 
2.43.0


From 6fbac982010c47ede52fb0d63c526755ea008139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 18/56] fix: a scalar and a sequence either side of a slice in
 NumpyArrayAdapter keys

---
 biggus/_init.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 1c305d5..eedce68 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1641,7 +1641,17 @@ class NumpyArrayAdapter(_ArrayAdapter):
                 array = self.concrete[...]
             # ... and then do each tuple in turn.
             for i, key in tuple_keys:
-                array = np.take(array, key, axis=dimensions[i])
+                array = np.take(array, np.array(key, dtype=int),
+                                axis=dimensions[i])
+        elif tuple_keys and any(map(_is_scalar, keys)):
+            # If there's a slice between the tuple and the scalars then
+            # NumPy would move the dimension of the tuple to the front, so
+            # turn the scalars into slices and drop their dimensions later.
+            cut_keys = [slice(key, key + 1 if key != -1 else None)
+                        if _is_scalar(key) else key for key in keys]
+            array = self.concrete[tuple(cut_keys)]
+            array = array[tuple(0 if _is_scalar(key) else slice(None)
+                                for key in keys)]
         else:
             array = self.concrete.__getitem__(keys)
         return array
-- 
2.43.0


From 8778ea212bb4b3a555b4f34407bf4a39a7a3cfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 19/56] fix: dtype and masking of single values from adapters

---
 biggus/_init.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index eedce68..efb3c19 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1577,8 +1577,10 @@ class _ArrayAdapter(Array):
         # We want the shape of the result to match the shape of the
         # Array, so where we've ended up with an array-scalar,
         # "inflate" it back to a 0-dimensional array.
-        if array.ndim == 0:
-            array = np.array(array)
+        if array is ma.masked:
+            array = np.array(self.fill_value, dtype=self.dtype)
+        elif array.ndim == 0 and not ma.isMaskedArray(array):
+            array = np.array(array, dtype=self.dtype)
         if ma.isMaskedArray(array):
             array = array.filled()
         return array
@@ -1588,7 +1590,10 @@ class _ArrayAdapter(Array):
         # We want the shape of the result to match the shape of the
         # Array, so where we've ended up with an array-scalar,
         # "inflate" it back to a 0-dimensional array.
-        if array.ndim == 0 or not ma.isMaskedArray(array):
+        if array.ndim == 0:
+            array = ma.MaskedArray(array, dtype=self.dtype,
+                                   fill_value=self.fill_value)
+        elif not ma.isMaskedArray(array):
             array = ma.MaskedArray(array, fill_value=self.fill_value)
         return array
 
-- 
2.43.0


From 4573b28391d2f7aac688115e13de83d8661ce1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 20/56] fix: fill-value of adapters with several sequences of
 keys

---
 biggus/_init.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index efb3c19..4e19b9e 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1646,8 +1646,9 @@ class NumpyArrayAdapter(_ArrayAdapter):
                 array = self.concrete[...]
             # ... and then do each tuple in turn.
             for i, key in tuple_keys:
-                array = np.take(array, np.array(key, dtype=int),
-                                axis=dimensions[i])
+                # NB. np.take would lose the fill-value of a masked array.
+                array = array[(slice(None),) * dimensions[i] +
+                              (np.array(key, dtype=int),)]
         elif tuple_keys and any(map(_is_scalar, keys)):
             # If there's a slice between the tuple and the scalars then
             # NumPy would move the dimension of the tuple to the front, so
-- 
2.43.0


From bcc173546f24ae40336e61d086324bea6612248a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 21/56] fix: position of repeated new axes when other axes are
 removed

---
 biggus/_init.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 4e19b9e..f1815b0 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -902,8 +902,13 @@ class NewAxesArray(ArrayContainer):
         contained_array_keys = []
         existing_array_axis = 0
         broadcast_dict = {}
+        # The axis of the result which corresponds to the current key.
+        result_axis = -1
 
         for key_index, key in enumerate(keys):
+            if not _is_scalar(key):
+                result_axis += 1
+
             if key is np.newaxis:
                 new_axes[existing_array_axis] += 1
                 continue
@@ -920,14 +925,14 @@ class NewAxesArray(ArrayContainer):
                 elif isinstance(key, slice):
                     new_size = len(range(*key.indices(1)))
                     if new_size != 1:
-                        broadcast_dict[key_index] = new_size
+                        broadcast_dict[result_axis] = new_size
                 elif isinstance(key, tuple):
                     for index in key:
                         if not -1 <= index < 1:
                             raise IndexError('index {} is out of bounds for '
                                              'axis {} with size 1'
                                              ''.format(key, key_index))
-                    broadcast_dict[key_index] = len(key)
+                    broadcast_dict[result_axis] = len(key)
                 else:
                     raise NotImplementedError('NewAxesArray indexing not yet '
                                               'supported for {} keys.'
-- 
2.43.0


From ef086ecf0113635d9e656e5bbcf4919569dc514c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 22/56] fix: conversion of a NewAxesArray with no dimensions

---
 biggus/_init.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index f1815b0..3403a2b 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -958,11 +958,11 @@ class NewAxesArray(ArrayContainer):
 
     def ndarray(self):
         array = super(NewAxesArray, self).ndarray()
-        return array.__getitem__(self._newaxis_keys())
+        return array.reshape(self.shape)
 
     def masked_array(self):
         array = super(NewAxesArray, self).masked_array()
-        return array.__getitem__(self._newaxis_keys())
+        return array.reshape(self.shape)
 
 
 @export
-- 
2.43.0


From 62bff535f3be7fdb957c7543371d6eec99d77479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:11 +0000
Subject: [PATCH 23/56] fix: array keys for the dimensions of a BroadcastArray
 which are not broadcast

---
 biggus/_init.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 3403a2b..c8d5dc7 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1061,7 +1061,8 @@ class BroadcastArray(ArrayContainer):
                                               'implemented.'
                                               ''.format(type(key)))
         # Try to avoid a copy of self.array if we can.
-        if all(key == slice(None) for key in array_keys):
+        if all(isinstance(key, slice) and key == slice(None)
+               for key in array_keys):
             sub_array = self.array
         else:
             sub_array = self.array[tuple(array_keys)]
-- 
2.43.0


From 8e2954d84375e1ff36f801bdb7d48e740af1429c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 24/56] fix: empty slices of the leading dimensions of a
 BroadcastArray

---
 biggus/_init.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index c8d5dc7..1e59075 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1066,6 +1066,10 @@ class BroadcastArray(ArrayContainer):
             sub_array = self.array
         else:
             sub_array = self.array[tuple(array_keys)]
+        if 0 in leading_shape:
+            shape = self._shape_from_broadcast_dict(sub_array.shape,
+                                                    new_broadcast_dict)
+            return _empty_array(leading_shape + shape, self.dtype)
         return type(self)(sub_array, new_broadcast_dict, leading_shape)
 
     @classmethod
@@ -1410,6 +1414,11 @@ def ones(shape, dtype=float):
     return ConstantArray(shape, 1, dtype=dtype)
 
 
+def _empty_array(shape, dtype):
+    """Return an Array for a selection which contains no elements."""
+    return ConstantArray(shape, np.zeros(1, dtype=dtype)[0], dtype=dtype)
+
+
 class _ArrayAdapter(Array):
     """
     Abstract base class for exposing a "concrete" data source as a
-- 
2.43.0


From f6ef303d53dcf594b99bc6b91f50596c778aa2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 25/56] fix: sequences of keys for several dimensions of an
 ArrayStack are independent

---
 biggus/_init.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 1e59075..3e1663a 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1936,8 +1936,13 @@ class ArrayStack(Array):
 
         stack_shape = _sliced_shape(self._stack.shape, stack_keys)
         if stack_shape:
-            stack = self._stack[stack_keys]
-            # If the result was 0D, convert it back to an array.
+            # Apply the keys one at a time, as they are all independent.
+            stack = self._stack
+            for axis, key in reversed(list(enumerate(stack_keys))):
+                key = _positive_key(key, self._stack.shape[axis], axis)
+                if isinstance(key, tuple):
+                    key = np.array(key, dtype=int)
+                stack = stack[(slice(None),) * axis + (key,)]
             stack = np.array(stack)
             for index in np.ndindex(stack_shape):
                 item = stack[index]
-- 
2.43.0


From 7f097ac0dab1e091a3e33416605c9c1645eb5a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:33 +0000
Subject: [PATCH 26/56] fix: empty selections from an ArrayStack

---
 biggus/_init.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 3e1663a..8fc5f48 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1947,7 +1947,12 @@ class ArrayStack(Array):
             for index in np.ndindex(stack_shape):
                 item = stack[index]
                 stack[index] = item[item_keys]
-            result = ArrayStack(stack)
+            if stack.size:
+                result = ArrayStack(stack)
+            else:
+                # Nothing is left, so we just need the right kind of Array.
+                item = self._stack.flat[0][item_keys]
+                result = _empty_array(stack_shape + item.shape, item.dtype)
         else:
             result = self._stack[stack_keys][item_keys]
         return result
-- 
2.43.0


From 0174df5a1876e581293dd6b433eaafcde3d70851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:47 +0000
Subject: [PATCH 27/56] fix: out of bounds keys for constant arrays and leading
 broadcast dimensions

---
 biggus/_init.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 8fc5f48..745dce4 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -3417,14 +3417,12 @@ def _sliced_shape(shape, keys):
     for key in keys:
         shape_dim += 1
         if _is_scalar(key):
-            continue
+            _positive_key(key, shape[shape_dim], shape_dim)
         elif isinstance(key, slice):
             size = len(range(*key.indices(shape[shape_dim])))
             sliced_shape.append(size)
-        elif isinstance(key, np.ndarray) and key.dtype == np.dtype('bool'):
-            # Numpy boolean indexing.
-            sliced_shape.append(builtins.sum(key))
         elif isinstance(key, (tuple, np.ndarray)):
+            key = _positive_key(key, shape[shape_dim], shape_dim)
             sliced_shape.append(len(key))
         elif key is np.newaxis:
             shape_dim -= 1
-- 
2.43.0


From fa38b9e210c9999b51076b26a6a18d2b7e364218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:59 +0000
Subject: [PATCH 28/56] fix: negative and repeated axes for a transposition

---
 biggus/_init.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index 745dce4..b55a2a9 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1758,6 +1758,10 @@ class TransposedArray(ArrayContainer):
             axes = np.arange(array.ndim)[::-1]
         elif len(axes) != array.ndim:
             raise ValueError('Incorrect number of dimensions.')
+        elif any(axis < 0 for axis in axes):
+            axes = [axis + array.ndim if axis < 0 else axis for axis in axes]
+        if sorted(axes) != list(range(array.ndim)):
+            raise ValueError('Invalid axes for transposition.')
         self.axes = axes
         self._forward_axes_map = {src: dest for dest, src in enumerate(axes)}
         self._inverse_axes_map = {dest: src for dest, src in enumerate(axes)}
-- 
2.43.0


From 1ad44771b47f94c548cfc9803b476e290bab658e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:11 +0000
Subject: [PATCH 29/56] fix: consecutive casts are each applied

---
 biggus/_init.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index b55a2a9..83b7a88 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1248,9 +1248,6 @@ class AsDataTypeArray(ArrayContainer):
     def dtype(self):
         return self._dtype
 
-    def astype(self, dtype):
-        return type(self)(self.array, dtype)
-
     def __getitem__(self, keys):
         # Apply the indexing to the contained array, then instantly
         # re-apply the astype.
-- 
2.43.0


From 19f49b631b89295bbea8709277159796d984d8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:15 +0000
Subject: [PATCH 30/56] fix: nbytes of very large virtual arrays

---
 biggus/_init.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 83b7a88..31fc9a6 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -585,7 +585,9 @@ class Array(six.with_metaclass(ABCMeta, object)):
     @property
     def nbytes(self):
         """The total number of bytes required to store the array data."""
-        return int(np.product(self.shape) * self.dtype.itemsize)
+        # NB. Virtual arrays might be too big for the integers of NumPy.
+        shape = np.array(self.shape, dtype=object)
+        return int(np.product(shape) * self.dtype.itemsize)
 
     @property
     def ndim(self):
-- 
2.43.0


From 0de176307dc978a712b6d85fd9776d00165b3259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:22 +0000
Subject: [PATCH 31/56] fix: broadcasting an array which already has leading
 broadcast dimensions

---
 biggus/_init.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 31fc9a6..6c91adf 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1091,13 +1091,31 @@ class BroadcastArray(ArrayContainer):
         shape, bcast_kwargs1, bcast_kwargs2 = (
             cls._compute_broadcast_kwargs(array1.shape, array2.shape))
         if any(bcast_kwargs1.values()):
-            array1 = cls(array1, **bcast_kwargs1)
+            array1 = cls._extend(array1, **bcast_kwargs1)
 
         if any(bcast_kwargs2.values()):
-            array2 = cls(array2, **bcast_kwargs2)
+            array2 = cls._extend(array2, **bcast_kwargs2)
 
         return array1, array2
 
+    @classmethod
+    def _extend(cls, array, broadcast, leading_shape):
+        # Create a BroadcastArray, where the axes to broadcast are those of
+        # the given array even if it already has some leading dimensions.
+        if isinstance(array, BroadcastArray) and array._leading_shape:
+            existing = list(array._leading_shape)
+            n_existing = len(existing)
+            combined = dict(array._broadcast_dict)
+            for axis, length in broadcast.items():
+                if axis < n_existing:
+                    existing[axis] = length
+                else:
+                    combined[axis - n_existing] = length
+            array = array.array
+            broadcast = combined
+            leading_shape = tuple(leading_shape) + tuple(existing)
+        return cls(array, broadcast, leading_shape)
+
     @staticmethod
     def _compute_broadcast_shape(shape1, shape2):
         """
-- 
2.43.0


From 67303314b4b8d0ca0d2d2e6d11eb7b223b405c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:34 +0000
Subject: [PATCH 32/56] fix: an AttributeError from a data source must not be
 hidden by array containers

---
 biggus/_init.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 6c91adf..82845b1 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -811,9 +811,10 @@ class ArrayContainer(Array):
         return self.array.__getitem__(keys)
 
     def ndarray(self):
-        try:
+        # NB. Don't hide any AttributeError from the evaluation itself.
+        if hasattr(self.array, 'ndarray'):
             return self.array.ndarray()
-        except AttributeError:
+        else:
             return np.array(self.array)
 
     @property
@@ -821,9 +822,10 @@ class ArrayContainer(Array):
         return self.array.__array_priority__
 
     def masked_array(self):
-        try:
+        # NB. Don't hide any AttributeError from the evaluation itself.
+        if hasattr(self.array, 'masked_array'):
             return self.array.masked_array()
-        except AttributeError:
+        else:
             return np.ma.masked_array(self.array)
 
 
-- 
2.43.0


From 2587eebbed8e9cb2a82364ea135e1267e3393c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:41 +0000
Subject: [PATCH 33/56] fix: aggregations of masked counts

---
 biggus/_init.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 82845b1..e2194c5 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2495,7 +2495,7 @@ class _CountMaskedStreamsHandler(_AggregationStreamsHandler):
         self.running_count = np.zeros(processed_chunk_shape, dtype='i')
 
     def finalise(self):
-        chunk = Chunk(self.current_keys, self.running_count)
+        chunk = Chunk(self.current_keys, np.ma.array(self.running_count))
         return chunk
 
     def process_data(self, data):
-- 
2.43.0


From bfcef028e2105870c47971902b6a13d3efa1a114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:00 +0000
Subject: [PATCH 34/56] fix: DaskEngine for inputs which are split into
 different chunks

---
 biggus/experimental/dask_engine.py | 49 +++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/biggus/experimental/dask_engine.py b/biggus/experimental/dask_engine.py
index dcc0f1b..1d5400b 100644
--- a/biggus/experimental/dask_engine.py
+++ b/biggus/experimental/dask_engine.py
@@ -216,8 +216,8 @@ class DaskGroup(biggus._init.AllThreadedEngine.Group):
             t_keys = tuple(slice(*slice_tuple) for slice_tuple in slice_group)
 
             all_chunks = []
-            for source_keys, source_chunks_by_key in zip(sources_keys_group,
-                                                         sources_chunks):
+            for input_array, source_keys, source_chunks_by_key in zip(
+                    array.sources, sources_keys_group, sources_chunks):
                 dependencies = tuple(
                         the_id
                         for keys in source_keys
@@ -237,10 +237,11 @@ class DaskGroup(biggus._init.AllThreadedEngine.Group):
                 # TODO: Fix slice equality to deal with 0 and None etc.
                 if not all(t_keys == normalize_keys(keys, array.shape)
                            for keys in source_keys):
-                    combined = self.collect(array[t_keys], masked, chunk=True)
+                    target = input_array[t_keys]
+                    combined = self.combine(target, t_keys, masked)
                     new_task = (combined, ) + dependencies
                     new_id = ('chunk shape: {}\n\n{}'
-                              ''.format(array[t_keys].shape, uuid.uuid()))
+                              ''.format(target.shape, uuid.uuid4()))
                     dsk_graph[new_id] = new_task
                     dependencies = (new_id, )
 
@@ -351,7 +352,38 @@ class DaskGroup(biggus._init.AllThreadedEngine.Group):
         return nodes
 
     @staticmethod
-    def collect(array, masked, chunk=False, name=None):
+    def combine(target, target_keys, masked):
+        """
+        Create a function which combines chunks of an array into the single
+        chunk for the given keys.
+
+        Args:
+
+        * target:
+            The part of the array which is covered by the combined chunk.
+        * target_keys:
+            The slices for that part of the array.
+        * masked:
+            Whether the chunks are masked arrays.
+
+        """
+        starts = [key.start or 0 for key in target_keys]
+
+        def gather(*chunks):
+            result_node = biggus._init.NdarrayNode(target, masked)
+            for chunk in chunks:
+                # Make the keys relative to the combined chunk.
+                keys = tuple(slice((key.start or 0) - start,
+                                   None if key.stop is None
+                                   else key.stop - start)
+                             for key, start in zip(chunk.keys, starts))
+                result_node.process_chunks([biggus._init.Chunk(keys,
+                                                               chunk.data)])
+            return biggus._init.Chunk(target_keys, result_node.result)
+        return gather
+
+    @staticmethod
+    def collect(array, masked, name=None):
         def gather(*all_chunks):
             # We make the NdarrayNode inside the calling function as it is this
             # that ultimately we want. TODO: Turn this into a biggus.Array
@@ -362,12 +394,7 @@ class DaskGroup(biggus._init.AllThreadedEngine.Group):
                 if isinstance(chunks, biggus._init.Chunk):
                     chunks = [chunks]
                 result_node.process_chunks(chunks)
-            result_array = result_node.result
-            if chunk:
-                return biggus._init.Chunk(tuple(slice(None)
-                                                for _ in result_array.shape),
-                                          result_array)
-            return result_array
+            return result_node.result
         if name:
             gather.__name__ = name
         return gather
-- 
2.43.0


From ee86f7364fedd433f90feba3542258c0cb40bfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:29 +0000
Subject: [PATCH 35/56] fix: standard deviation of a single NaN

---
 biggus/_init.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index e2194c5..12c1fec 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2721,6 +2721,8 @@ class _StdStreamsHandler(_AggregationStreamsHandler):
 
         if self.a is None:
             self.a = data[0]
+            # A single NaN has no standard deviation.
+            self.q += self.a - self.a
             data = data[1:]
 
         for data_slice in data:
-- 
2.43.0


From 5a9084fb77ee29d1b2c6e6093aff3b2a9587b804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:47 +0000
Subject: [PATCH 36/56] fix: masked min and max of large integers after a
 wholly masked chunk

---
 biggus/_init.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 12c1fec..bf83624 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2540,7 +2540,9 @@ class _MinMaskedStreamsHandler(_AggregationStreamsHandler):
         shape[self.axis] = 1
         data = np.ma.concatenate([self.result.reshape(shape), data],
                                  axis=self.axis)
-        self.result = np.ma.array(np.min(data, axis=self.axis))
+        # NB. The dtype would otherwise be lost if this is `ma.masked`.
+        self.result = np.ma.array(np.min(data, axis=self.axis),
+                                  dtype=self.array.dtype)
 
 
 class _MaxStreamsHandler(_AggregationStreamsHandler):
@@ -2581,7 +2583,9 @@ class _MaxMaskedStreamsHandler(_AggregationStreamsHandler):
         shape[self.axis] = 1
         data = np.ma.concatenate([self.result.reshape(shape), data],
                                  axis=self.axis)
-        self.result = np.ma.array(np.max(data, axis=self.axis))
+        # NB. The dtype would otherwise be lost if this is `ma.masked`.
+        self.result = np.ma.array(np.max(data, axis=self.axis),
+                                  dtype=self.array.dtype)
 
 
 class _SumStreamsHandler(_AggregationStreamsHandler):
-- 
2.43.0


From 8aff013e7e795de2e4ebd4eb17f61cb61568037b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:43 +0000
Subject: [PATCH 37/56] fix: masked 0-dimensional results of elementwise
 operations were read-only

---
 biggus/_init.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index bf83624..5f48398 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -3268,7 +3268,8 @@ class _Elementwise(ComputedArray):
         result = self._ma_op(*ma_operands)
         # Promote array-scalar (or `ma.masked`) to 0-dimensional array.
         if result is ma.masked or not ma.isMaskedArray(result):
-            result = ma.array(result, dtype=self.dtype)
+            # (We need a copy because `ma.masked` is read-only.)
+            result = ma.array(result, dtype=self.dtype, copy=True)
         return result
 
     def streams_handler(self, masked):
-- 
2.43.0


From efd03264003c687a8213004907e9eb2a7966e7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:44 +0000
Subject: [PATCH 38/56] fix: DaskEngine lost part of an aggregation when its
 input's chunks spelled the same keys differently

---
 biggus/experimental/dask_engine.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/biggus/experimental/dask_engine.py b/biggus/experimental/dask_engine.py
index 1d5400b..1a6716d 100644
--- a/biggus/experimental/dask_engine.py
+++ b/biggus/experimental/dask_engine.py
@@ -151,9 +151,10 @@ class DaskGroup(biggus._init.AllThreadedEngine.Group):
                 if process_result is None:
                     raise RuntimeError('No result to process.')
                 # Itself returns a chunk.
-                return process_result
-            else:
-                return result
+                result = process_result
+            # There are several ways to spell the same keys, but a consumer
+            # needs all the chunks of an array to agree on one of them.
+            return biggus._init.Chunk(produced_keys, result.data)
         produce_chunks.__name__ = nicename
         return produce_chunks
 
-- 
2.43.0


From 1df416d64c5a8e2d661feddb0721906d2c0685b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:42 +0000
Subject: [PATCH 39/56] fix: grouping the keys of more than 9999 chunks was
 refused

---
 biggus/experimental/key_grouper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/biggus/experimental/key_grouper.py b/biggus/experimental/key_grouper.py
index 5b4e299..4197f3d 100644
--- a/biggus/experimental/key_grouper.py
+++ b/biggus/experimental/key_grouper.py
@@ -110,9 +110,10 @@ def dimension_group_to_lowest_common(dim_length, dim_keys):
                              for stop, index in zip(current_stops,
                                                     current_index)]
 
-        # Prevent an infinite loop.
+        # Prevent an infinite loop. (Every iteration moves on by at least one
+        # of the keys.)
         i += 1
-        if i > 9999:
+        if i > sum(lengths):
             # This should never happen, but it may be possible with some inputs
             # (unverified).
             raise RuntimeError('The algorithm failed to find key groups.')
-- 
2.43.0


From d53e85452b3a2920a9bbcfeab58b6c7843f0a1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:15 +0000
Subject: [PATCH 40/56] fix: elementwise operations could not broadcast against
 leading dimensions without elements

---
 biggus/_init.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index 5f48398..65abc93 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1116,6 +1116,12 @@ class BroadcastArray(ArrayContainer):
             array = array.array
             broadcast = combined
             leading_shape = tuple(leading_shape) + tuple(existing)
+        if 0 in leading_shape:
+            # There is nothing of the array left.
+            shape = [broadcast.get(axis, length)
+                     for axis, length in enumerate(array.shape)]
+            return _empty_array(tuple(leading_shape) + tuple(shape),
+                                array.dtype)
         return cls(array, broadcast, leading_shape)
 
     @staticmethod
-- 
2.43.0


From 1c83c763f09be0f357cb2b1a4940e04ef900c2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:17 +0000
Subject: [PATCH 41/56] fix: means and deviations of half precision data
 overflowed or lost most of their precision

---
 biggus/_init.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 65abc93..f36a36f 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2632,6 +2632,12 @@ class _SumMaskedStreamsHandler(_AggregationStreamsHandler):
         self.running_total += np.sum(data.filled(0), axis=self.axis)
 
 
+def _accumulator_dtype(dtype):
+    # The dtype in which to accumulate results of the given dtype. Half
+    # precision would soon overflow.
+    return np.result_type(dtype, np.float32)
+
+
 class _MeanStreamsHandler(_AggregationStreamsHandler):
     nice_name = 'mean'
 
@@ -2645,10 +2651,11 @@ class _MeanStreamsHandler(_AggregationStreamsHandler):
         # not be able to represent the total.
         self._dtype = (np.zeros(1, dtype=self.array.dtype) / 1.).dtype
         self.running_total = np.zeros(processed_chunk_shape,
-                                      dtype=self._dtype)
+                                      dtype=_accumulator_dtype(self._dtype))
 
     def finalise(self):
         array = self.running_total / self.array.shape[self.axis]
+        array = array.astype(self._dtype)
         # Promote array-scalar to 0-dimensional array.
         if array.ndim == 0:
             array = np.array(array)
@@ -2656,7 +2663,8 @@ class _MeanStreamsHandler(_AggregationStreamsHandler):
         return chunk
 
     def process_data(self, data):
-        self.running_total += np.sum(data, axis=self.axis, dtype=self._dtype)
+        self.running_total += np.sum(data, axis=self.axis,
+                                     dtype=self.running_total.dtype)
 
 
 class _MeanMaskedStreamsHandler(_AggregationStreamsHandler):
@@ -2671,7 +2679,8 @@ class _MeanMaskedStreamsHandler(_AggregationStreamsHandler):
         # Accumulate in the result dtype, as the dtype of the source might
         # not be able to represent the total.
         self._dtype = (np.zeros(1, dtype=self.array.dtype) / 1.).dtype
-        self.running_total = np.zeros(shape, dtype=self._dtype)
+        self.running_total = np.zeros(shape,
+                                      dtype=_accumulator_dtype(self._dtype))
 
     def finalise(self):
         # Avoid any runtime-warning for divide by zero.
@@ -2696,7 +2705,7 @@ class _MeanMaskedStreamsHandler(_AggregationStreamsHandler):
         self.running_count += np.ma.count(data, axis=self.axis)
         self.running_masked_count += np.ma.count_masked(data, axis=self.axis)
         self.running_total += np.sum(data.filled(0), axis=self.axis,
-                                     dtype=self._dtype)
+                                     dtype=self.running_total.dtype)
 
 
 class _StdStreamsHandler(_AggregationStreamsHandler):
@@ -2715,11 +2724,12 @@ class _StdStreamsHandler(_AggregationStreamsHandler):
         self.k = 1
         self._dtype = (np.zeros(1, dtype=self.array.dtype) / 1.).dtype
         self.a = None
-        self.q = np.zeros(processed_chunk_shape, dtype=self._dtype)
+        self.q = np.zeros(processed_chunk_shape,
+                          dtype=_accumulator_dtype(self._dtype))
 
     def finalise(self):
         self.q /= builtins.max(self.k - self.ddof, 0)
-        array = np.sqrt(self.q)
+        array = np.sqrt(self.q).astype(self._dtype)
         # Promote array-scalar to 0-dimensional array.
         if array.ndim == 0:
             array = np.array(array)
@@ -2727,7 +2737,7 @@ class _StdStreamsHandler(_AggregationStreamsHandler):
         return chunk
 
     def process_data(self, data):
-        data = np.rollaxis(data, self.axis).astype(self._dtype)
+        data = np.rollaxis(data, self.axis).astype(self.q.dtype)
 
         if self.a is None:
             self.a = data[0]
@@ -2764,7 +2774,8 @@ class _StdMaskedStreamsHandler(_AggregationStreamsHandler):
         del self.target_shape[self.axis]
 
     def bootstrap(self, processed_chunk_shape):
-        dtype = (np.zeros(1, dtype=self.array.dtype) / 1.).dtype
+        self._dtype = (np.zeros(1, dtype=self.array.dtype) / 1.).dtype
+        dtype = _accumulator_dtype(self._dtype)
         self.a = np.zeros(processed_chunk_shape, dtype=dtype).flatten()
         self.q = np.zeros(processed_chunk_shape, dtype=dtype).flatten()
         self.running_count = np.zeros(processed_chunk_shape,
@@ -2775,7 +2786,7 @@ class _StdMaskedStreamsHandler(_AggregationStreamsHandler):
         mask = self.running_count <= builtins.max(self.ddof, 0)
         denominator = ma.array(self.running_count, mask=mask) - self.ddof
         q = ma.array(self.q, mask=mask) / denominator
-        array = ma.sqrt(q)
+        array = ma.sqrt(q).astype(self._dtype)
         array.shape = self.current_shape
         # Promote array-scalar to 0-dimensional array.
         if array.ndim == 0:
-- 
2.43.0


From 74eed58e0119eb1c912f1a1704b8784c9da8da70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:20 +0000
Subject: [PATCH 42/56] fix: an item of an ArrayStack could be replaced by one
 of another shape or dtype

---
 biggus/_init.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index f36a36f..2efa4ab 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1991,7 +1991,12 @@ class ArrayStack(Array):
         for key in keys:
             assert _is_scalar(key)
         assert isinstance(value, Array), type(value)
+        if value.shape != self._item_shape or value.dtype != self._dtype:
+            raise ValueError('invalid sub-array')
         self._stack[keys] = value
+        if value.fill_value != self._fill_value:
+            # Check whether the fill-values (still) agree.
+            self._fill_value = ArrayStack(self._stack).fill_value
 
     def ndarray(self):
         data = np.empty(self.shape, dtype=self.dtype)
-- 
2.43.0


From 955d1447fc92919b18e29c7849617070bb9f6fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:10 +0000
Subject: [PATCH 43/56] fix: views of NumPy arrays ignored fill-values and
 indexed several sequences as pairs

---
 biggus/_init.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 2efa4ab..7623f72 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -795,6 +795,15 @@ class ArrayContainer(Array):
     def __repr__(self):
         return 'ArrayContainer({!r})'.format(self.array)
 
+    @property
+    def _virtual_array(self):
+        # The contained array might be a NumPy one, which indexes (and fills
+        # in its masked elements) differently.
+        array = self.array
+        if isinstance(array, np.ndarray):
+            array = NumpyArrayAdapter(array)
+        return array
+
     @property
     def dtype(self):
         return self.array.dtype
@@ -808,14 +817,14 @@ class ArrayContainer(Array):
         # which implement their own complex __getitem__ behaviour,
         # overriding this and _getitem_full_keys may be necessary. See also
         # BroadcastArray and TransposedArray.
-        return self.array.__getitem__(keys)
+        return self._virtual_array.__getitem__(keys)
 
     def ndarray(self):
         # NB. Don't hide any AttributeError from the evaluation itself.
         if hasattr(self.array, 'ndarray'):
             return self.array.ndarray()
         else:
-            return np.array(self.array)
+            return np.array(np.ma.filled(self.array))
 
     @property
     def __array_priority__(self):
@@ -954,8 +963,8 @@ class NewAxesArray(ArrayContainer):
         new_axes = list(new_axes)
         for axis in sorted(axes_to_combine, reverse=True):
             new_axes[axis] += new_axes.pop(axis + 1)
-        new_array = NewAxesArray(self.array[tuple(contained_array_keys)],
-                                 new_axes)
+        new_array = self._virtual_array[tuple(contained_array_keys)]
+        new_array = NewAxesArray(new_array, new_axes)
         if broadcast_dict:
             new_array = BroadcastArray(new_array, broadcast_dict)
         return new_array
@@ -1069,7 +1078,7 @@ class BroadcastArray(ArrayContainer):
                for key in array_keys):
             sub_array = self.array
         else:
-            sub_array = self.array[tuple(array_keys)]
+            sub_array = self._virtual_array[tuple(array_keys)]
         if 0 in leading_shape:
             shape = self._shape_from_broadcast_dict(sub_array.shape,
                                                     new_broadcast_dict)
@@ -1848,7 +1857,7 @@ class TransposedArray(ArrayContainer):
         remapped_keys = list(self._apply_axes_mapping(keys, inverse=True))
 
         # Apply the keys to the pre-transposed array.
-        new_arr = self.array[tuple(remapped_keys)]
+        new_arr = self._virtual_array[tuple(remapped_keys)]
 
         # Compute the new scalar axes in terms of old (pre-transpose)
         # dimension numbers.
-- 
2.43.0


From 878e5d03e3ba50487c94c4f38d112884f91c3d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:03 +0000
Subject: [PATCH 44/56] fix: views advertised the default fill-value instead of
 the one they fill with

---
 biggus/_init.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 7623f72..315f965 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -808,6 +808,13 @@ class ArrayContainer(Array):
     def dtype(self):
         return self.array.dtype
 
+    @property
+    def fill_value(self):
+        fill_value = getattr(self._virtual_array, 'fill_value', None)
+        if fill_value is None:
+            fill_value = Array.fill_value.fget(self)
+        return fill_value
+
     @property
     def shape(self):
         return self.array.shape
@@ -1261,7 +1268,7 @@ class BroadcastArray(ArrayContainer):
         if isinstance(mask, np.ndarray):
             mask = self._broadcast_numpy_array(mask, self._broadcast_dict,
                                                self._leading_shape)
-        return np.ma.masked_array(array, mask=mask)
+        return np.ma.masked_array(array, mask=mask, fill_value=ma.fill_value)
 
 
 class AsDataTypeArray(ArrayContainer):
@@ -1285,6 +1292,13 @@ class AsDataTypeArray(ArrayContainer):
     def dtype(self):
         return self._dtype
 
+    @property
+    def fill_value(self):
+        # Cast the fill-value like NumPy casts that of a masked array.
+        original = np.ma.empty(0, dtype=self.array.dtype)
+        original.fill_value = super(AsDataTypeArray, self).fill_value
+        return original.astype(self.dtype).fill_value
+
     def __getitem__(self, keys):
         # Apply the indexing to the contained array, then instantly
         # re-apply the astype.
@@ -1315,6 +1329,12 @@ class MaskValueArray(ArrayContainer):
         super(MaskValueArray, self).__init__(array)
         self._mask_value = mask_value
 
+    @property
+    def fill_value(self):
+        # The masked value, as for any other array masked by value.
+        return np.ma.masked_equal(np.empty(0, dtype=self.dtype),
+                                  self._mask_value).fill_value
+
     def __getitem__(self, keys):
         return type(self)(super(MaskValueArray, self).__getitem__(keys),
                           self._mask_value)
-- 
2.43.0


From 4647570d62d81770e4d0b80790ccce5ac2391b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:53 +0000
Subject: [PATCH 45/56] fix: fill-values were lost when arrays were evaluated
 by an engine

---
 biggus/_init.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 315f965..2efbfc2 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -354,7 +354,8 @@ class NdarrayNode(ConsumerNode):
 
     def __init__(self, array, masked):
         if masked:
-            self.result = np.ma.empty(array.shape, dtype=array.dtype)
+            self.result = np.ma.empty(array.shape, dtype=array.dtype,
+                                      fill_value=array.fill_value)
         else:
             self.result = np.empty(array.shape, dtype=array.dtype)
         super(NdarrayNode, self).__init__()
@@ -3321,7 +3322,8 @@ class _Elementwise(ComputedArray):
         if result is ma.masked or not ma.isMaskedArray(result):
             # (We need a copy because `ma.masked` is read-only.)
             result = ma.array(result, dtype=self.dtype, copy=True)
-        return result
+        # The fill-values of the operands are meaningless.
+        return ma.array(result, fill_value=self.fill_value)
 
     def streams_handler(self, masked):
         if masked:
-- 
2.43.0


From 3b941d2f946c739a975b2d3123abe5d1bc2b4c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:34 +0000
Subject: [PATCH 46/56] fix: casts delivered another fill-value than they
 advertised

---
 biggus/_init.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 2efbfc2..11e2727 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1295,10 +1295,13 @@ class AsDataTypeArray(ArrayContainer):
 
     @property
     def fill_value(self):
-        # Cast the fill-value like NumPy casts that of a masked array.
-        original = np.ma.empty(0, dtype=self.array.dtype)
-        original.fill_value = super(AsDataTypeArray, self).fill_value
-        return original.astype(self.dtype).fill_value
+        fill_value = super(AsDataTypeArray, self).fill_value
+        try:
+            fill_value = np.asarray(fill_value).astype(self.dtype)[()]
+        except (TypeError, ValueError):
+            # e.g. 'N/A' is not a number.
+            fill_value = Array.fill_value.fget(self)
+        return fill_value
 
     def __getitem__(self, keys):
         # Apply the indexing to the contained array, then instantly
@@ -1311,8 +1314,8 @@ class AsDataTypeArray(ArrayContainer):
                      self).ndarray().astype(self.dtype)
 
     def masked_array(self):
-        return super(AsDataTypeArray,
-                     self).masked_array().astype(self.dtype)
+        array = super(AsDataTypeArray, self).masked_array()
+        return ma.array(array.astype(self.dtype), fill_value=self.fill_value)
 
 
 class MaskValueArray(ArrayContainer):
-- 
2.43.0


From 1304f414d1a17c4ae9169a8e6097d2209f778474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:22 +0000
Subject: [PATCH 47/56] fix: refuse a constant array with negative dimensions

---
 biggus/_init.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index 11e2727..6e2a587 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1401,6 +1401,8 @@ class ConstantArray(Array):
             except TypeError:
                 shape = (shape,)
         self._shape = tuple(map(int, shape))
+        if any(size < 0 for size in self._shape):
+            raise ValueError('negative dimensions are not allowed')
         data = np.array([value], dtype=dtype)
         self.value = data[0]
         self._dtype = data.dtype
-- 
2.43.0


From 35f3d3dfd6ac52b382a5446b97905891800ddae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:55 +0000
Subject: [PATCH 48/56] fix: refuse invalid slices of adapters at once

---
 biggus/_init.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 6e2a587..7cea971 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1532,7 +1532,8 @@ class _ArrayAdapter(Array):
                       ' size {2}'.format(key, axis, size)
                 raise IndexError(msg)
         elif isinstance(key, slice):
-            pass
+            # Raises an exception if the slice is invalid.
+            key.indices(size)
         elif isinstance(key, np.ndarray) and key.dtype == np.dtype('bool'):
             if key.size > size:
                 msg = 'too many boolean indices. Boolean index array ' \
-- 
2.43.0


From 5b63f0d888b904f346af08f127023e3494413dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:53 +0000
Subject: [PATCH 49/56] fix: refuse indices which are not integers

---
 biggus/_init.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 7cea971..af34f4d 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -47,7 +47,15 @@ _KEY_TYPES = _SCALAR_KEY_TYPES + (slice, tuple, np.ndarray)
 
 
 def _is_scalar(key):
-    return isinstance(key, (int, np.integer))
+    # NB. A bool is an int, but it doesn't index an axis.
+    return isinstance(key, (int, np.integer)) and not isinstance(key, bool)
+
+
+def _check_indices(indices):
+    """Raise a TypeError unless all the given indices are integers."""
+    for index in indices:
+        if not _is_scalar(index):
+            raise TypeError('invalid index {!r}'.format(index))
 
 
 @export
@@ -1547,6 +1555,7 @@ class _ArrayAdapter(Array):
             # Make sure we capture the values in case we've
             # been given a one-shot iterable, like a generator.
             key = tuple(key)
+            _check_indices(key)
             for sub_key in key:
                 if sub_key >= size or sub_key < -size:
                     msg = 'index {0} is out of bounds for axis {1}' \
@@ -1588,6 +1597,7 @@ class _ArrayAdapter(Array):
             # Make sure we capture the values in case we've
             # been given a one-shot iterable, like a generator.
             new_key = tuple(new_key)
+            _check_indices(new_key)
             for sub_key in new_key:
                 if sub_key >= size or sub_key < -size:
                     msg = 'index {0} is out of bounds for axis {1}' \
@@ -3546,6 +3556,7 @@ def _positive_key(key, size, axis):
                              '{}'.format(axis, size))
         key = tuple(np.flatnonzero(key))
     elif isinstance(key, (tuple, list, np.ndarray)):
+        _check_indices(key)
         key = tuple(positive(index) for index in key)
     return key
 
-- 
2.43.0


From 99af2e317e402ee39beb8672b1811b0b6b67a386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:22 +0000
Subject: [PATCH 50/56] fix: capture the values of one-shot iterables used as
 keys

---
 biggus/_init.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index af34f4d..1e354ea 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -3608,6 +3608,10 @@ def _full_keys(keys, ndim):
         if next_key is Ellipsis:
             next_key = slice(None)
             take_from_left = not take_from_left
+        elif isinstance(next_key, collections.Iterator):
+            # Make sure we capture the values of a one-shot iterable, as
+            # the key can be used more than once.
+            next_key = tuple(next_key)
         keys_list.append(next_key)
 
     middle = [slice(None)] * (ndim - n_keys_non_newaxis)
-- 
2.43.0


From d71288f577e03507f262bb8557fb2d68f8201052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:44 +0000
Subject: [PATCH 51/56] fix: accept unsigned integers as indices of every kind
 of array

---
 biggus/_init.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 1e354ea..de64fcd 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1503,7 +1503,7 @@ class _ArrayAdapter(Array):
         assert len(keys) <= len(concrete.shape)
         result_keys = []
         for axis, (key, size) in enumerate(zip(keys, concrete.shape)):
-            result_key = self._cleanup_new_key(key, size, axis)
+            result_key = self._cleanup_new_key(_signed_key(key), size, axis)
             result_keys.append(result_key)
         self._keys = tuple(result_keys)
 
@@ -3533,6 +3533,22 @@ def _sliced_shape(shape, keys):
     return sliced_shape
 
 
+def _signed_key(key):
+    """
+    Return the equivalent of a key without NumPy's unsigned integers: their
+    difference from a Python integer can be a float, which is no index.
+
+    """
+    if isinstance(key, np.unsignedinteger):
+        key = int(key)
+    elif isinstance(key, np.ndarray) and key.dtype.kind == 'u':
+        key = tuple(key.tolist())
+    elif isinstance(key, tuple):
+        key = tuple(int(index) if isinstance(index, np.unsignedinteger) else
+                    index for index in key)
+    return key
+
+
 def _positive_key(key, size, axis):
     """
     Return the equivalent of a key for a dimension of the given size, where
@@ -3612,6 +3628,7 @@ def _full_keys(keys, ndim):
             # Make sure we capture the values of a one-shot iterable, as
             # the key can be used more than once.
             next_key = tuple(next_key)
+        next_key = _signed_key(next_key)
         keys_list.append(next_key)
 
     middle = [slice(None)] * (ndim - n_keys_non_newaxis)
-- 
2.43.0


From 3b5a4994eb363f68992882a6b706a2942f27cc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:44 +0000
Subject: [PATCH 52/56] fix: transposed arrays depended on later changes to the
 given axes

A list of axes which was changed after the array had been transposed changed
the evaluated results, but not the shape.
---
 biggus/_init.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index de64fcd..59baa46 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -21,6 +21,7 @@ import six
 from abc import ABCMeta, abstractproperty, abstractmethod
 from six.moves import builtins
 import collections
+import copy
 import functools
 import itertools
 import threading
@@ -1831,6 +1832,9 @@ class TransposedArray(ArrayContainer):
             raise ValueError('Incorrect number of dimensions.')
         elif any(axis < 0 for axis in axes):
             axes = [axis + array.ndim if axis < 0 else axis for axis in axes]
+        else:
+            # NB. Don't depend on what the caller does with the axes later on.
+            axes = copy.copy(axes)
         if sorted(axes) != list(range(array.ndim)):
             raise ValueError('Invalid axes for transposition.')
         self.axes = axes
-- 
2.43.0


From a8682c5b9127d7ad2b3e8a16516ea82e632c5c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:32 +0000
Subject: [PATCH 53/56] fix: broadcast arrays depended on the kind and state of
 their arguments

A leading shape which is a one-shot iterable was ignored, and a broadcast
mapping which was changed afterwards made the array inconsistent.
---
 biggus/_init.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 59baa46..be2030b 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1016,12 +1016,17 @@ class BroadcastArray(ArrayContainer):
         (5, 10, 4)
 
         """
+        # NB. Don't depend on what the caller does with these later on (and
+        # the leading shape might be a one-shot iterable).
+        broadcast = dict(broadcast)
+        leading_shape = tuple(leading_shape)
+
         # To avoid nesting broadcast arrays within broadcast arrays, we
         # simply copy the existing broadcast, and apply this broadcast on
         # top of it (in a new BroadcastArray instance).
         if isinstance(array, BroadcastArray):
             new_broadcast_dict = array._broadcast_dict.copy()
-            leading_shape = tuple(leading_shape) + array._leading_shape
+            leading_shape = leading_shape + array._leading_shape
             array = array.array
             new_broadcast_dict.update(broadcast)
             broadcast = new_broadcast_dict
@@ -1034,7 +1039,7 @@ class BroadcastArray(ArrayContainer):
         for length in leading_shape:
             if length < 1:
                 raise ValueError('Leading shape must all be >=1.')
-        self._leading_shape = tuple(leading_shape)
+        self._leading_shape = leading_shape
         self._broadcast_shape = tuple(shape)
         self._shape = self._leading_shape + self._broadcast_shape
 
-- 
2.43.0


From 2a38011eac1769da21ad84dfcee876ffdb5469ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:09 +0000
Subject: [PATCH 54/56] fix: one-shot iterables of axes were taken to be empty

---
 biggus/_init.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index be2030b..185963e 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2969,9 +2969,10 @@ def _normalise_axis(axis, array):
     elif _is_scalar(axis):
         axes = (axis,)
     elif (isinstance(axis, collections.Iterable) and
-            not isinstance(axis, (six.string_types, collections.Mapping)) and
-            all(map(_is_scalar, axis))):
+            not isinstance(axis, (six.string_types, collections.Mapping))):
         axes = tuple(axis)
+        if not all(map(_is_scalar, axes)):
+            raise TypeError('axis must be None, int, or iterable of ints')
     else:
         raise TypeError('axis must be None, int, or iterable of ints')
     if axes is not None:
-- 
2.43.0


From 2e4d0a3d9c019c49a84e898f6e767e9e5fd1d4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:36 +0000
Subject: [PATCH 55/56] fix: slices of mosaics and of selections took time and
 memory for every index

Selecting with a slice from a selection, or along the axis of a mosaic,
listed all the indices of the dimension (and the data sources were then
indexed with sequences in place of slices).
---
 biggus/_init.py | 115 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 84 insertions(+), 31 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 185963e..c1a761a 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1571,6 +1571,36 @@ class _ArrayAdapter(Array):
             raise TypeError('invalid key {!r}'.format(key))
         return key
 
+    def _remap_slice(self, src_key, src_size, new_key, axis):
+        """
+        Return a key of type int, slice, or tuple that represents the
+        combination of new_key with the given slice of a dimension.
+
+        Raises IndexError/TypeError for invalid keys.
+
+        """
+        # NB. Don't list the indices - there may be billions.
+        start, stop, step = src_key.indices(src_size)
+        size = _slice_length(start, stop, step)
+        new_key = self._cleanup_new_key(new_key, size, axis)
+        if isinstance(new_key, slice):
+            new_start, new_stop, new_step = new_key.indices(size)
+            n_indices = _slice_length(new_start, new_stop, new_step)
+            start += new_start * step
+            step *= new_step
+            stop = start + n_indices * step
+            if n_indices == 0:
+                result_key = slice(0, 0)
+            else:
+                result_key = slice(start, stop if stop >= 0 else None, step)
+        else:
+            new_key = _positive_key(new_key, size, axis)
+            if _is_scalar(new_key):
+                result_key = start + int(new_key) * step
+            else:
+                result_key = tuple(start + int(key) * step for key in new_key)
+        return result_key
+
     def _remap_new_key(self, indices, new_key, axis):
         """
         Return a key of type int, slice, or tuple that represents the
@@ -1634,10 +1664,9 @@ class _ArrayAdapter(Array):
             elif isinstance(src_key, slice):
                 # A slice src_key means we have to apply the new key
                 # to the sliced version of the concrete dimension.
-                start, stop, stride = src_key.indices(src_size)
-                indices = tuple(range(start, stop, stride))
                 new_key = new_keys.pop(0)
-                result_key = self._remap_new_key(indices, new_key, axis)
+                result_key = self._remap_slice(src_key, src_size, new_key,
+                                               axis)
             else:
                 new_key = new_keys.pop(0)
                 result_key = self._remap_new_key(src_key, new_key, axis)
@@ -2205,6 +2234,47 @@ class LinearMosaic(Array):
             self._cached_shape = tuple(shape)
         return self._cached_shape
 
+    @staticmethod
+    def _slice_pieces(key, size, axis_lengths, offsets, splits):
+        # Yield the index of each relevant tile, and what to take of it.
+        # NB. Not every kind of Array can be indexed with a sequence, so
+        # stick with slices.
+        index, stop, step = key.indices(size)
+        while (index < stop) if step > 0 else (index > stop):
+            tile_index = np.searchsorted(splits, index) - 1
+            start = index - int(offsets[tile_index])
+            if step > 0:
+                tile_stop = builtins.min(axis_lengths[tile_index],
+                                         start + stop - index)
+            else:
+                tile_stop = builtins.max(-1, start + stop - index)
+            n_steps = _slice_length(start, tile_stop, step)
+            if n_steps == 1:
+                yield tile_index, slice(start, start + 1, 1)
+            else:
+                tile_stop = start + n_steps * step
+                yield tile_index, slice(
+                    start, tile_stop if tile_stop >= 0 else None, step)
+            index += n_steps * step
+
+    @staticmethod
+    def _sequence_pieces(key, offsets, splits):
+        # Yield the index of each relevant tile, and what to take of it.
+        tile_indices = np.searchsorted(splits, key) - 1
+        groups = itertools.groupby(zip(key, tile_indices),
+                                   lambda axis_tile: axis_tile[1])
+        for tile_index, pairs in groups:
+            axis_indices = np.array([index for index, _ in pairs])
+            axis_indices -= offsets[tile_index]
+            if len(axis_indices) == 1:
+                # Even if we only need one value from this tile
+                # we must preserve the axis dimension by using
+                # a slice instead of a scalar.
+                start = axis_indices[0]
+                yield tile_index, slice(start, start + 1, 1)
+            else:
+                yield tile_index, axis_indices
+
     def _getitem_full_keys(self, full_keys):
         # Starting backwards, include all keys once a ``key != slice(None)``
         # has been found. This will give us only the keys that are really
@@ -2245,38 +2315,15 @@ class LinearMosaic(Array):
                 # NB. If the stride is large enough, this might not be a
                 # contiguous subset of self._tiles.
                 if isinstance(axis_key, slice):
-                    all_axis_indices = range(*axis_key.indices(size))
+                    # NB. Don't list the indices - there may be billions.
+                    pieces = self._slice_pieces(axis_key, size, axis_lengths,
+                                                offsets, splits)
                 else:
-                    all_axis_indices = tuple(axis_key)
-                tile_indices = np.searchsorted(splits, all_axis_indices) - 1
-                pairs = zip(all_axis_indices, tile_indices)
-                i = itertools.groupby(pairs, lambda axis_tile: axis_tile[1])
+                    pieces = self._sequence_pieces(axis_key, offsets, splits)
                 tiles = []
                 tile_slice = list(keys)
-                for tile_index, group_of_pairs in i:
-                    axis_indices = list(zip(*group_of_pairs))[0]
+                for tile_index, tile_slice[axis] in pieces:
                     tile = self._tiles[tile_index]
-                    axis_indices = np.array(axis_indices)
-                    axis_indices -= offsets[tile_index]
-                    if len(axis_indices) == 1:
-                        # Even if we only need one value from this tile
-                        # we must preserve the axis dimension by using
-                        # a slice instead of a scalar.
-                        start = axis_indices[0]
-                        step = 1
-                        stop = start + 1
-                        tile_slice[axis] = slice(start, stop, step)
-                    elif isinstance(axis_key, slice):
-                        # Not every kind of Array can be indexed with a
-                        # sequence, so stick with a slice.
-                        start = axis_indices[0]
-                        step = axis_indices[1] - start
-                        stop = axis_indices[-1] + step
-                        tile_slice[axis] = slice(
-                            start, stop if stop >= 0 else None, step)
-                    else:
-                        tile_slice[axis] = axis_indices
-
                     tiles.append(tile[tuple(tile_slice)])
                 if not tiles:
                     # We still need something to define the other axes.
@@ -3543,6 +3590,12 @@ def _sliced_shape(shape, keys):
     return sliced_shape
 
 
+def _slice_length(start, stop, step):
+    """Return the number of indices from start to stop by step."""
+    return builtins.max(0, (stop - start + step - (1 if step > 0 else -1)) //
+                        step)
+
+
 def _signed_key(key):
     """
     Return the equivalent of a key without NumPy's unsigned integers: their
-- 
2.43.0


From 5c37017ac4f47ac6ec4a2626544feeb013e6391b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:05 +0000
Subject: [PATCH 56/56] fix: stacks shared their items with the array they were
 made from

---
 biggus/_init.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index c1a761a..1d9dbc4 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1974,7 +1974,8 @@ class ArrayStack(Array):
 
     """
     def __init__(self, stack):
-        stack = np.require(stack, dtype='O')
+        # NB. Don't share the items with the caller (or with another stack).
+        stack = np.array(np.require(stack, dtype='O'))
         first_array = stack.flat[0]
         item_shape = first_array.shape
         dtype = first_array.dtype
-- 
2.43.0

