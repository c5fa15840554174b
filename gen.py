#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the data below (one place to keep them in step)."""
import json, os, re
V = os.path.dirname(os.path.abspath(__file__))
C = 'cxxmetrics/'; P = 'cxxmetrics_prometheus/'
# id, title, statement, over, quantifier text, why tests cannot settle it, files, state, mechanism, observe_at
PROPS = [
('C01', 'Counter value is the exact running total', 'The value of a counter always equals its initial value plus the sum of all increments minus the sum of all decrements applied so far, in the arithmetic of its value type (wrapping for unsigned and two\'s complement types). Every way of incrementing, decrementing, assigning or copying it agrees on that total, each operation returns the documented value (the new total, or the old one for the postfix form), and a snapshot carries the same value.',
 ['inputs', 'histories'], 'every sequence of operations with arbitrary amounts and initial values, for signed and unsigned integers of every width', 'the tests use one short fixed sequence of small numbers', [C + 'counter.hpp'],
 [('value', 'the running total', C + 'counter.hpp')], [('atomic add of each amount', C + 'counter.hpp counter::incr and operators')], ['counter value, the result of each operation, snapshot value']),
('C02', 'Concurrent counter updates are never lost', 'When several threads update the same counter, then after all of them finished its value is the initial value plus the sum of every amount any of them added or subtracted, whatever the interleaving. A concurrent reader only ever sees totals that some prefix of the completed updates explains, and each increment reports a total of its own.',
 ['schedules', 'inputs'], 'every interleaving of the atomic steps of several threads, arbitrary amounts', 'a test samples a few of the interleavings the machine happens to produce', [C + 'counter.hpp', C + 'histogram.hpp'],
 [('value', 'shared total', C + 'counter.hpp')], [('atomic read-modify-write', C + 'counter.hpp')], ['value after all threads joined, results of increments']),
('C03', 'Gauges report the current value of their source', 'A gauge always reports the latest value: the last one set on it, or what its function returns or its referenced variable holds at the moment it is read. Copies are independent (or keep watching the same source), reading never changes anything, snapshots carry that same value, and gauges with sum aggregation yield snapshots that add up while gauges with average aggregation yield snapshots that are averaged.',
 ['inputs', 'histories'], 'arbitrary values and changes of the source between reads, every kind of gauge', 'the tests read each kind of gauge once or twice', [C + 'gauge.hpp'],
 [('value', 'the stored value, function, reference or pointer', C + 'gauge.hpp')], [('get and set', C + 'gauge.hpp'), ('aggregation of the snapshot', C + 'gauge.hpp')], ['gauge get, gauge snapshot, type name of a gauge']),
('C04', 'The most-recent reservoir keeps exactly the latest values', 'After any sequence of updates, a most-recent-values reservoir of capacity N yields a snapshot of exactly the last N values offered (all of them while fewer than N were offered). A copy or an assigned reservoir has the same contents and carries on independently.',
 ['inputs', 'histories'], 'every update sequence around and beyond wrap-around, arbitrary values, copies at any moment', 'the tests use two fixed sequences and one capacity', [C + 'simple_reservoir.hpp', C + 'ringbuf.hpp'],
 [('ring buffer', 'the latest N elements', C + 'ringbuf.hpp')], [('push overwrites the oldest', C + 'ringbuf.hpp ringbuf::push')], ['reservoir snapshot size, min, max, quantiles']),
('C05', 'The uniform reservoir stays a bounded sample of what was offered', 'A uniform reservoir holds every offered value until it is full and exactly its capacity afterwards; whatever the random draws, everything it holds was offered to it, a new value displaces at most one held value, and every held value can be displaced. It never touches memory outside its storage and its copies carry on independently.',
 ['inputs', 'histories'], 'every update sequence, arbitrary values and every outcome of the random draws', 'tests see the draws of one seed', [C + 'uniform_reservoir.hpp'],
 [('data', 'the kept values', C + 'uniform_reservoir.hpp')], [('random choice of the slot', C + 'uniform_reservoir.hpp uniform_reservoir::update')], ['reservoir snapshot size, min, max']),
('C06', 'The sliding window reservoir drops exactly what is too old', 'A snapshot of a sliding window reservoir contains exactly those of the most recent values (up to its capacity) that were recorded no longer than the window ago at the moment of the snapshot. This holds for every spacing of updates and snapshots in time, for a caller-supplied clock, and for copies.',
 ['inputs', 'histories'], 'arbitrary time steps between updates and snapshots, arbitrary windows and values', 'tests use a fixed script of a few time steps', [C + 'sliding_window.hpp', C + 'ringbuf.hpp'],
 [('window', 'age limit', C + 'sliding_window.hpp'), ('data', 'time-stamped values', C + 'sliding_window.hpp')], [('timestamp filter while iterating', C + 'sliding_window.hpp')], ['reservoir snapshot size, min, max']),
('C07', 'A histogram counts every value ever offered', 'The count of a histogram, read directly or from a snapshot, equals the number of updates made to it, however few values its reservoir keeps, and also when several threads update it. Its snapshot describes the reservoir at that moment and does not change afterwards.',
 ['inputs', 'histories', 'schedules'], 'arbitrary values and numbers of updates over every kind of reservoir, all interleavings of two updating threads', 'tests use one fixed sequence', [C + 'histogram.hpp', C + 'snapshots.hpp'],
 [('count', 'number of updates', C + 'histogram.hpp')], [('atomic count next to the reservoir', C + 'histogram.hpp')], ['histogram count, snapshot count and size']),
('C08', 'Quantiles of a snapshot are order statistics of its values', 'The minimum and maximum of a snapshot are the smallest and largest of its values, and every quantile is the linear interpolation at position q*(n+1) between neighbouring sorted values, clamped to the extremes. Hence quantiles lie between minimum and maximum, never decrease as q grows, do not depend on the order in which the values arrived, and are zero for an empty snapshot.',
 ['inputs'], 'arbitrary values in arbitrary order, of integer, floating and duration types, several quantiles', 'tests compare a handful of numbers from one data set', [C + 'snapshots.hpp'],
 [('values', 'sorted values', C + 'snapshots.hpp reservoir_snapshot')], [('sort at construction, interpolation', C + 'snapshots.hpp reservoir_snapshot::value')], ['snapshot value at quantile, min, max, size']),
('C09', 'The mean of a snapshot is the average of its values', 'The mean of a snapshot is the arithmetic mean of its values up to rounding, whatever their order; it therefore lies between minimum and maximum (up to that rounding). A snapshot of one value has that value as its mean, and an empty snapshot has mean zero.',
 ['inputs'], 'arbitrary values of floating and integer types', 'tests compare the mean of one or two data sets', [C + 'snapshots.hpp'],
 [('values', 'sorted values', C + 'snapshots.hpp')], [('running mean', C + 'snapshots.hpp reservoir_snapshot::mean')], ['snapshot mean']),
('C10', 'Sampling a snapshot visits its quantiles in order', 'Sampling at most k values of a snapshot calls the handler at most k times, with strictly increasing quantiles between 0 and 100, with non-decreasing values between minimum and maximum, each being the interpolated value at its quantile. It terminates without faults for every snapshot size, including empty and single-value snapshots, and every k.',
 ['inputs'], 'arbitrary values, snapshot sizes and numbers of samples', 'tests sample one data set once', [C + 'snapshots.hpp'],
 [('values', 'sorted values', C + 'snapshots.hpp')], [('even spacing of quantiles', C + 'snapshots.hpp reservoir_snapshot::sample')], ['the calls of the handler']),
('C11', 'Metric values are totally ordered and compare exactly', 'Comparing two metric values gives the mathematical comparison of what they represent, whichever numeric types and widths or duration units they were made from (an integer compared with a duration counts as nanoseconds). The six relations are mutually consistent, equality is symmetric and the order antisymmetric and transitive; text compares lexicographically; equality and inequality of single-value snapshots follow their values.',
 ['inputs'], 'all values of all pairs of supported numeric types and duration units', 'the tests compare few hand-picked pairs; the wrong results are at widths, signs and magnitudes they do not try', [C + 'metric_value.hpp', C + 'snapshots.hpp'],
 [('value', 'a number, duration or text', C + 'metric_value.hpp')], [('compare after choosing the wider operand', C + 'metric_value.hpp variant_data_holder::compare')], ['relational operators of metric values and snapshots']),
('C12', 'Metric value arithmetic matches ordinary arithmetic', 'Adding, subtracting, multiplying and dividing metric values gives the ordinary arithmetic result in the wider of the two operand types, with the operands in the order written; sums and products do not depend on the order of the operands. Dividing by zero yields zero, compound assignment agrees with the binary operators, negation is subtraction from zero, and no combination of values traps.',
 ['inputs'], 'all values of pairs of integer, floating and duration types', 'tests try few small numbers in the same type', [C + 'metric_value.hpp'],
 [('value', 'a number, duration or text', C + 'metric_value.hpp')], [('promotion to the wider operand', C + 'metric_value.hpp variant_data_holder')], ['arithmetic operators of metric values']),
('C13', 'Values survive the round trip through a metric value', 'A number, duration or text put into a metric value comes back unchanged when it is read as the same type, and reading it as a wider type gives the same number; reading a floating number as an integer rounds to the nearest. Its text form is the decimal notation of the number, and reading text that spells a number gives that number.',
 ['inputs'], 'all values of every supported type', 'tests convert a few constants', [C + 'metric_value.hpp'],
 [('value', 'a number, duration or text', C + 'metric_value.hpp')], [('conversion operators', C + 'metric_value.hpp metric_value')], ['conversions of metric values']),
('C14', 'Equal values, paths and tag sets hash equally', 'Metric values that compare equal have equal hashes whatever types they were made from, and tag sets or paths that compare equal have equal hashes whatever order they were built in. Tag sets are equal exactly when they hold the same names with equal values.',
 ['inputs', 'histories'], 'arbitrary values, tag sets in every insertion order', 'tests look up one or two tag sets built the same way', [C + 'metric_value.hpp', C + 'tag_collection.hpp', C + 'metric_path.hpp'],
 [('tags', 'name to value map', C + 'tag_collection.hpp')], [('hash specialisations', C + 'metric_value.hpp, tag_collection.hpp, metric_path.hpp')], ['std::hash, equality']),
('C15', 'A moving average follows its definition and stays within its inputs', 'An exponentially weighted moving average starts with the total of its first interval, then at each completed interval moves towards that interval\'s total by the fraction 1-exp(-interval/(2*window)), and each missed interval counts as zero. So its rate never leaves the range spanned by zero and the per-interval totals, never grows during silence, decays towards zero, ignores marks made when the clock runs backwards, and copies and assignments continue exactly like the original.',
 ['inputs', 'histories'], 'arbitrary amounts and time steps (including very long silences and clocks going backwards), several windows, floating and integer rates', 'tests follow one scripted series with fixed steps', [C + 'ewma.hpp'],
 [('rate', 'the current average', C + 'ewma.hpp'), ('pending', 'total of the current interval', C + 'ewma.hpp'), ('last', 'start of the current interval', C + 'ewma.hpp')], [('tick', C + 'ewma.hpp')], ['ewma rate and snapshot']),
('C16', 'Looking at a constant moving average or meter changes nothing', 'Reading the rate or taking a snapshot of a constant moving average or meter, any number of times and at any moments, never changes what any later reading reports, and reading twice at the same moment gives the same answer.',
 ['inputs', 'histories'], 'arbitrary marks, time steps and interposed reads', 'tests do not compare observed and unobserved histories', [C + 'ewma.hpp', C + 'meter.hpp'],
 [('rate', 'the current average', C + 'ewma.hpp')], [('read-only tick', C + 'ewma.hpp')], ['rates and snapshots of const objects']),
('C18', 'Marks made concurrently within an interval are all counted', 'When several threads mark a moving average or meter within one interval, the average for that interval accounts for the sum of all their marks, whatever the interleaving; the total behind a meter\'s mean never loses a mark, in any interval.',
 ['schedules', 'inputs'], 'all interleavings of two and three threads, arbitrary amounts', 'tests have no concurrent marks', [C + 'ewma.hpp', C + 'meter.hpp'],
 [('pending', 'total of the current interval', C + 'ewma.hpp'), ('total', 'all marks', C + 'meter.hpp')], [('atomic add', C + 'ewma.hpp atomic_add')], ['rate and mean after all threads joined']),
('C19', 'A meter reports its lifetime mean and one rate per window', 'The mean of a meter is the total of all marks divided by the number of intervals since the first mark (the total itself while no time has passed), and for every window it was declared with it reports the moving average of exactly that window. Declaring windows in any order or repeatedly gives one rate each; copies and assignments continue like the original, and snapshots carry the same numbers.',
 ['inputs', 'histories', 'configurations'], 'arbitrary marks and time steps, several window sets', 'tests check one scripted series', [C + 'meter.hpp', C + 'meta.hpp', C + 'ewma.hpp'],
 [('total', 'sum of all marks', C + 'meter.hpp'), ('start', 'time of the first mark', C + 'meter.hpp'), ('rates', 'one average per window', C + 'meter.hpp')], [('rates_holder', C + 'meter.hpp'), ('sort_unique', C + 'meta.hpp')], ['meter mean, rate, snapshot']),
('C20', 'A timer records each timed run exactly once with its duration', 'Timing a callable records exactly the time between its start and its end once, returns what the callable returned, and lets its exceptions through without recording anything (unless asked to include them); a scoped timer records once when it leaves its scope, from its construction or last reset, and not at all if it was cleared or moved from. Count, mean rate and snapshot agree on the number and lengths of the recorded times; runs of zero measured length are ignored.',
 ['inputs', 'histories'], 'arbitrary durations, every order of reset, clear and move, callables that return or throw', 'tests time a few fixed sleeps', [C + 'timer.hpp', C + 'histogram.hpp', C + 'meter.hpp'],
 [('histogram', 'recorded durations', C + 'timer.hpp'), ('meter', 'rate of recordings', C + 'timer.hpp'), ('start', 'start of a scoped run', C + 'timer.hpp')], [('scoped timer destructor', C + 'timer.hpp'), ('timer update', C + 'timer.hpp')], ['timer count, snapshot, rate']),
('C21', 'A registry returns the same metric for the same name and tags', 'Asking a registry twice for a metric with the same path, tags and type gives the same object, however path and tags were spelled, and different paths or tag sets give different objects; constructor arguments only matter the first time. Asking for a path that is registered with another type is rejected with an error naming both types and changes nothing.',
 ['inputs', 'histories'], 'arbitrary paths and tag values, every order of requests, all metric types', 'tests register a few constant names', [C + 'metrics_registry.hpp', C + 'metric_path.hpp', C + 'tag_collection.hpp'],
 [('metrics', 'path to registration map', C + 'metrics_registry.hpp'), ('tagged metrics', 'tags to metric map', C + 'metrics_registry.hpp')], [('get_or_add, child', C + 'metrics_registry.hpp')], ['registry accessors, metric_type_mismatch']),
('C22', 'Visiting a registry sees every registered metric exactly once', 'Visiting all registered metrics calls the handler exactly once for every registered path, and visiting a registered metric calls its handler exactly once for every tag set with those tags and the metric\'s current snapshot. Registering an existing object makes exactly that object available under the name and tags and reports whether it was added; it never replaces one that is already there, and a null or mismatched one is refused.',
 ['inputs', 'histories'], 'arbitrary sets of paths, tags and values', 'tests visit one fixed registry', [C + 'metrics_registry.hpp'],
 [('metrics', 'path to registration map', C + 'metrics_registry.hpp')], [('visit, visit_each, register_existing', C + 'metrics_registry.hpp')], ['handler calls, register_existing result']),
('C23', 'Aggregating tagged metrics sums or averages all of them', 'Aggregating the tagged variants of a metric calls the handler once with one combined snapshot: the sum of all counters (and sum gauges), the arithmetic mean of all averaged values and of each meter rate, and nothing when there are none. Merging averages weights each side by the number of samples behind it, so the result does not depend on the order of merging, up to rounding.',
 ['inputs', 'histories'], 'arbitrary values and numbers of tagged variants', 'tests aggregate one fixed set', [C + 'metrics_registry.hpp', C + 'snapshots.hpp'],
 [('samples', 'number of values behind an average', C + 'snapshots.hpp')], [('merge', C + 'snapshots.hpp'), ('aggregate_all', C + 'metrics_registry.hpp')], ['aggregate handler, snapshot merge']),
('C24', 'Merged histogram snapshots describe the union of their values', 'Merging the snapshot of one histogram into another gives exactly the multiset union of both sets of values in order and the sum of both counts, so quantiles, minimum, maximum and mean of the result are those of all values together, whichever is merged into which. For timers the rates are averaged as well.',
 ['inputs'], 'arbitrary values and sizes, including empty ones', 'tests merge two fixed data sets', [C + 'snapshots.hpp'],
 [('values', 'sorted values', C + 'snapshots.hpp'), ('count', 'number of updates', C + 'snapshots.hpp')], [('histogram_snapshot::merge', C + 'snapshots.hpp')], ['merged snapshot quantiles, count, size']),
('C25', 'Publish options arrive at the publisher as they were set', 'Options given for the whole registry apply to every metric without options of its own, and options given for one metric apply to that metric only; the latest ones set win, and setting options for an unknown metric does nothing. Every flag, scale factor and quantile list survives construction, copying, moving and assignment of the options unchanged.',
 ['inputs', 'histories', 'configurations'], 'all combinations of flags and factors, every order of setting options', 'tests set a few combinations', [C + 'publisher.hpp', C + 'publisher_impl.hpp', C + 'metrics_registry.hpp'],
 [('options', 'per registry and per metric options', C + 'metrics_registry.hpp')], [('effective_options', C + 'publisher_impl.hpp'), ('option constructors', C + 'publisher.hpp')], ['effective options, option accessors']),
('C26', 'Publisher data is kept per registry and per metric', 'Data a publisher attaches to the registry or to a metric is created once from the first arguments, stays the same object on every later request, and is separate for different metrics, different data types and the registry itself. Looking for data never creates it, and asking for data, type or a visit of an unregistered path reports absence.',
 ['histories', 'inputs'], 'arbitrary orders of requests over several metrics and data types', 'tests follow one order', [C + 'publisher_impl.hpp', C + 'metrics_registry.hpp'],
 [('pubdata', 'type to data map', C + 'metrics_registry.hpp')], [('get_or_create_publish_data, try_get_publish_data', C + 'metrics_registry.hpp')], ['publisher accessors']),
('C27', 'Published Prometheus names are always valid', 'Every metric name written for Prometheus matches [a-zA-Z_:][a-zA-Z0-9_:]* and every label name matches [a-zA-Z_][a-zA-Z0-9_]*, whatever bytes the path elements and tag names contain. Letters and digits are kept, path elements are joined by colons, every other character becomes one underscore, and a leading digit gets an underscore in front.',
 ['inputs'], 'arbitrary bytes in paths and tag names', 'tests use a few well-behaved names', [P + 'snapshot_writer.hpp'],
 [], [('format_name, format_tag_name', P + 'snapshot_writer.hpp')], ['the written text']),
('C28', 'Published Prometheus label values can be read back exactly', 'Label values are written between double quotes with backslash, quote and line feed escaped, so that undoing the escapes yields exactly the tag\'s text whatever bytes it contains, and every sample and comment stays on a line of its own.',
 ['inputs'], 'arbitrary bytes in tag values and paths', 'tests use one value with a quote', [P + 'snapshot_writer.hpp', P + 'prometheus_timer.hpp'],
 [], [('format_tag_value, format_help', P + 'snapshot_writer.hpp')], ['the written text']),
('C29', 'Different rate windows get different labels', 'The window label of a published rate names exactly the duration of its window, so two different windows of a meter or timer never share a label and each label reads back to its duration.',
 ['inputs', 'configurations'], 'arbitrary durations', 'tests see a few round durations', [P + 'snapshot_writer.hpp'],
 [], [('format_window', P + 'snapshot_writer.hpp')], ['the written window label']),
('C30', 'Published Prometheus samples faithfully show the metrics', 'Publishing writes, for every registered metric with a name, one type header of the right kind and then exactly one sample per tag set and component, with all the tags and the current value (times the scale factor when one is set); components switched off by the options are not written. Histograms and timers write count, mean and the requested quantiles, timers in microseconds, meters and timers one sample per window and the mean.',
 ['inputs', 'configurations'], 'arbitrary values, scale factors and option flags for every metric type', 'tests compare a few complete documents', [P + 'prometheus_counter.hpp', P + 'prometheus_gauge.hpp', P + 'prometheus_histogram.hpp', P + 'prometheus_meter.hpp', P + 'prometheus_timer.hpp', P + 'prometheus_publisher.hpp', P + 'snapshot_writer.hpp'],
 [], [('snapshot writers', P + '*.hpp')], ['the written text']),
('C31', 'Metric paths concatenate like lists of names', 'Joining paths concatenates their elements: it is associative, the empty path is neutral, and empty strings add no element, whether they come from literals, pointers or strings. Two paths are equal exactly when their elements are equal one by one, and joining with a delimiter yields the elements in order with one delimiter between neighbours.',
 ['inputs'], 'arbitrary element texts and groupings', 'tests join a few constants', [C + 'metric_path.hpp'],
 [('paths', 'list of elements', C + 'metric_path.hpp')], [('operator/ and constructors', C + 'metric_path.hpp')], ['iteration, equality, join']),
('C32', 'The lock-free stack neither loses nor duplicates elements', 'However pushes and pops of several threads interleave, every pushed element is popped at most once, and after all threads finished the elements popped plus those left are exactly the elements pushed; a single thread sees last-in first-out order. A pop returns nothing only if the stack was empty at some moment during it.',
 ['schedules', 'histories'], 'all interleavings of two and three threads with several operations, including immediate reuse of node memory', 'tests sample interleavings', [C + 'internal/atomic_lifo.hpp'],
 [('head', 'top node with a modification count', C + 'internal/atomic_lifo.hpp')], [('compare and exchange of node and counter', C + 'internal/atomic_lifo.hpp')], ['popped values']),
('C33', 'Concurrent first requests for a metric agree on one object', 'When several threads ask a registry for the same path and tags at the same time, all get the same object and every update any of them makes is in it; requests for different tags or paths get different objects, and concurrent visits see each metric at most once and never fault.',
 ['schedules'], 'all interleavings (with bounded preemptions) of two and three threads', 'tests do not race registrations', [C + 'metrics_registry.hpp'],
 [('metrics', 'maps under locks', C + 'metrics_registry.hpp')], [('lock around find and insert', C + 'metrics_registry.hpp')], ['returned objects, visits']),
('C34', 'Requested quantiles are published once each, in order', 'The quantiles configured for publishing are visited exactly once each, in increasing order and without duplicates whatever order they were listed in, with the value the snapshot has at that quantile. Without a configured list the quantiles 50, 90 and 99 are used.',
 ['inputs', 'configurations'], 'arbitrary snapshots, several quantile lists', 'tests use one list', [C + 'publisher.hpp', C + 'meta.hpp', C + 'snapshots.hpp'],
 [('quantiles', 'the configured list', C + 'publisher.hpp')], [('sort_unique', C + 'meta.hpp'), ('processed_quantile_options', C + 'publisher.hpp')], ['visitor calls']),
('C35', 'Time units and periods convert exactly', 'Periods made from microseconds, milliseconds, seconds, minutes and hours have exactly that length as durations, and adding, subtracting, multiplying and dividing periods, or combining and comparing them with durations, is exact arithmetic on microseconds.',
 ['inputs'], 'arbitrary counts that fit', 'tests use few constants', [C + 'time.hpp'],
 [('value', 'microseconds', C + 'time.hpp')], [('unit functions and operators', C + 'time.hpp')], ['period conversions and operators']),
('C36', 'Concurrent updates never corrupt a reservoir', 'However updates from several threads interleave, a reservoir of any kind afterwards holds exactly as many values as were offered up to its capacity, and everything it yields was offered; while nothing was displaced every offered value is there. A snapshot taken meanwhile never holds more than the capacity and never faults.',
 ['schedules', 'inputs'], 'all interleavings of two and three threads, arbitrary values', 'tests do not race updates', [C + 'ringbuf.hpp', C + 'simple_reservoir.hpp', C + 'sliding_window.hpp', C + 'uniform_reservoir.hpp'],
 [('tail', 'next slot', C + 'ringbuf.hpp'), ('size', 'number of elements', C + 'ringbuf.hpp')], [('atomic tail and size', C + 'ringbuf.hpp ringbuf::push')], ['snapshot size, min, max']),
('C37', 'Pooled objects are never handed out twice', 'An object taken from an object pool is handed out to nobody else until the last handle to it is dropped, whatever the interleaving of takers and returners; it is destroyed exactly once, when its last handle is dropped, and objects that were returned are reused before new ones are made. Handles copy, move, exchange and compare-and-exchange like shared pointers, atomically.',
 ['schedules', 'histories'], 'all operation histories on a few handles and all interleavings of threads taking and returning objects', 'the pool tests are not even part of the test build', [C + 'pool.hpp'], [('free list', 'returned objects', C + 'pool.hpp'), ('next', 'link of a returned object or count of a taken one', C + 'pool.hpp')], [('lock-free free list', C + 'pool.hpp pool'), ('reference count', C + 'pool.hpp pool_ptr')], ['taken objects', 'constructions and destructions']),
('C38', 'The skip list holds exactly what was inserted and not erased', 'A concurrent skip list iterates in order over exactly the keys that were inserted and not erased, each once, and finds exactly those; inserting a key that is there and erasing one that is not are refused. This holds after any interleaving of insertions and erasures by several threads, of which exactly one succeeds for the same key; an iteration meanwhile stays in order, ends, and meets every key that is there throughout. An iterator keeps its key while others insert or erase.',
 ['schedules', 'histories'], 'all histories of a few operations, all interleavings of two threads inserting, erasing or iterating, every choice of levels', 'the skip list tests are not even part of the test build', [C + 'skiplist.hpp'], [('next', 'links per level with deletion marks', C + 'skiplist.hpp skiplist_node'), ('head', 'first node', C + 'skiplist.hpp skiplist')], [('compare and exchange of links', C + 'skiplist.hpp insert_next, remove_next'), ('deletion marks', C + 'skiplist.hpp remove_node_from_level')], ['iteration, lookup and results of insert and erase']),
('C39', 'Memory that was taken is given back', 'Values, tags, paths, options, snapshots, reservoirs, metrics, registries, publishers and their data give back all the memory they took when they end, also after being copied, moved, assigned over or combined, after a refused request and after an exception from a callback. Visiting many sets of tags takes no more stack than visiting few. Updating, reading and publishing metrics that are there already takes no more memory, however often it is repeated.',
 ['inputs', 'histories'], 'arbitrary values and choices of operations on every kind of object', 'tests do not count memory', [C + 'metric_value.hpp', C + 'snapshots.hpp', C + 'publisher.hpp', C + 'metrics_registry.hpp', C + 'internal/atomic_lifo.hpp', C + 'pool.hpp', C + 'skiplist.hpp'],
 [('variant_data_holder', 'in-place value that may own text', C + 'metric_value.hpp'), ('nodes', 'elements of stacks, pools and lists', C + 'internal/atomic_lifo.hpp')], [('explicit destructor calls and placement new', C + 'metric_value.hpp'), ('owned data', C + 'metrics_registry.hpp')], ['number of allocated blocks before and after']),
 ('C40', 'Pages written while metrics are in use show what was there', 'A page written, or a registry visited, while other threads update metrics, request new ones or write pages of their own shows every metric registered before exactly once, with a value it had at some moment during the writing: never one that lacks an update completed before, nor values that were never given. A metric requested meanwhile is shown once or not at all, pages written at the same time from unchanging metrics are the same, and no update is lost to the reader.',
 ['schedules', 'inputs'], 'all interleavings of writers of pages with updating and requesting threads', 'no test publishes from a second thread', [C + 'metrics_registry.hpp', C + 'publisher_impl.hpp', C + 'publisher.hpp', 'cxxmetrics_prometheus/prometheus_publisher.hpp', C + 'counter.hpp', C + 'histogram.hpp', C + 'timer.hpp'],
 [('repository map', 'registered metrics', C + 'metrics_registry.hpp'), ('lock_', 'guards of maps', C + 'metrics_registry.hpp')], [('visit_all', C + 'publisher.hpp'), ('visit', C + 'metrics_registry.hpp')], ['pages as read back']),
]
NA = [
('N01', 'Hazard pointers protect objects from reclamation', 'An object that a hazard pointer holder protects is not reclaimed before the holder lets go of it, and every retired object is reclaimed once nobody protects it.',
 ['schedules'], 'all interleavings of protecting and retiring threads', 'there are no tests', [C + 'internal/hazard_ptr.hpp'], [('domain', 'retired objects', C + 'internal/hazard_ptr.hpp')], [('get_protected', C + 'internal/hazard_ptr.hpp')], ['reclamation'],
 'the hazard pointer header only declares its functions (retire, get_protected, reset, swap have no definition anywhere): there is no code to execute symbolically'),
]
NOTES = {}
def harnesses(pid): return [f for f in sorted(os.listdir(os.path.join(V, 'harness'))) if re.match(pid + r'[a-z]?\.cpp$', f)]
def prop(p):
    return {'id': p[0], 'title': p[1], 'statement': p[2], 'quantifier': {'over': p[3], 'text': p[4]}, 'why_tests_cant': p[5],
            'anchors': {'files': p[6], 'state': [dict(name=a, meaning=b, where=c) for a, b, c in p[7]], 'mechanism': [dict(name=a, where=b) for a, b in p[8]], 'observe_at': p[9], 'hook_needed': None}}
def main():
    done = [p for p in PROPS if harnesses(p[0])]
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in done + [n for n in NA]:
            assert len(p[1]) <= 80, p[1]; f.write(json.dumps(prop(p)) + '\n')
    checks = []
    for p in done:
        b = []; o = []
        for h in harnesses(p[0]):
            t = open(os.path.join(V, 'harness', h)).read(); b += re.findall(r'^// bound: (.*)$', t, re.M); o += re.findall(r'^// outside: (.*)$', t, re.M)
        conc = 'schedules' in p[3]
        checks.append({'property': p[0], 'quick_cmd': 'python3 /verif/vs.py check %s quick' % p[0], 'thorough_cmd': 'python3 /verif/vs.py check %s thorough' % p[0], 'evidence_file': 'evidence/%s.json' % p[0],
            'technique': 'symbolic execution of the LLVM IR of the real headers' + (' over all interleavings' if conc else '') + ', assertions decided by an SMT solver (z3), counterexamples replayed natively',
            'level': 'model_checking', 'level_note': 'Every path within the bounds is decided by the solver. Bounds: ' + '; '.join(b) + '. Outside: ' + '; '.join(o) + '. Trusted: clang front end, the IR executor (its path models are replayed on the native build), lib/sup.cpp stand-ins for shared-library code, z3; sequentially consistent memory, allocation never fails.'})
    m = {'version': 1, 'setup_cmd': 'python3 /verif/vs.py setup', 'hooks': {'guard': 'none', 'enable': 'no hooks were needed: the checks compile the unmodified headers of /repo', 'source_commits': []},
         'checks': checks, 'not_applicable': [{'property': n[0], 'reason': n[10]} for n in NA],
         'notes': 'Repairs of genuine defects are the fix: commits in /repo, listed in known_findings.json.'}
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print(len(done), 'properties claimed,', len(PROPS) - len(done), 'without a harness')
if __name__ == '__main__': main()
