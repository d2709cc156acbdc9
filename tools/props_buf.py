I = "include/maec/"
TECH = ("TLA+ specification of buffers, both kinds of iterator and rings over integer indices (TLC: traversals are permutations, positions are inverse, one memory, "
        "period of a ring) + model histories and random operations replayed into the real containers + TLC validation of every observed index, position and value")
NOTE = ("Model exhaustive for up to 3 frames, 3 channels and 3-4 operations; every shape up to 6x6 (thorough 8x11) traversed in all nine ways; about a thousand generated histories "
        "of 5-40 operations per run under AddressSanitizer. Buffers of seven element types and five fixed sizes are filled in fifteen ways. Excluded: buffers with an incomplete last frame, and algorithms that need the difference of two iterators to be a number (std::sort).")


def define(prop):
    prop("C09", "Planar and interleaved views address the same samples",
         "A buffer of whole frames is one memory seen in two ways: iterating channel by channel and iterating frame by frame each meet every sample exactly once, in order of time within a channel, forwards, backwards, "
         "const or not, and squishing writes exactly that order. Channel and sample of an iterator and the position set by them are inverse, at(channel, sample), at(index) and both kinds of iterator "
         "name the same cell, and what is written through one is read through the others with nothing else changed. Iterator arithmetic, comparison and difference are those of their indices. Copies and moves carry samples, channel "
         "count and rate and are independent of the original; assigning samples keeps channel count and rate; growing keeps what was there and adds silence. "
         "All this holds for buffers of any element type and of fixed size alike, and generic algorithms over the iterators, const or not, rearrange, fill and answer as over the plain sequence of values.",
         ["inputs", "histories"], "every number of channels and frames (also none), position, iterator operation and sequence of writes, copies and reshapings",
         "Tests walk one buffer of three or four channels; arithmetic and addressing agree by accident on square or single-channel shapes.",
         [I + "dsp/buffer.hpp", I + "audio_buffer.hpp"],
         [("index to memory", "SeqIterator/InterIterator::resolve_pointer"), ("position to index", "set_position/set_channel/set_sample")],
         [("buff", "samples, interleaved", "BaseBuffer::buff"), ("nchannels", "channels", "BaseBuffer::nchannels"), ("index", "iterator position", "BaseMAECIterator::index")],
         ["at()", "iterators", "size()/channels()/channel_capacity()/get_samplerate()", "squish_inter/squish_seq"], TECH, NOTE)
    prop("C31", "Buffers multiply as matrices",
         "Multiplying two buffers read as matrices - a channel is a row, a sample a column - gives in the target buffer, whatever that held and whatever kinds of numbers the three hold, a matrix with the rows of the first and the columns "
         "of the second whose element at row r and column c is the sum of the products of row r of the first with column c of the second. The factors are unchanged.",
         ["inputs"], "every pair of matrices whose shapes fit, square or not, and every target",
         "Nothing in the test suite multiplies matrices.",
         [I + "dsp/matrix.hpp", I + "dsp/buffer.hpp"], [("rows by columns", "matrix_mult"), ("sum of products", "dot_product")],
         [("buff, nchannels", "matrix elements and rows", "BaseBuffer")], ["at()", "channels()/channel_capacity()"],
         "TLA+ specification of the product on buffers (spec/Buf.tla): TLC shows the row-times-column law, identities, transposition and associativity for all matrices within the bounds; model histories of chained products and random products "
         "of mixed element types run on the real function, every result compared by TLC",
         "Model: all matrices up to 2x2 over three values (thorough 3x3 over two), two operations. About 600 scripts per run, up to 7x7x7, integer elements. The target being one of the factors is excluded.")
    prop("C32", "A collection frees each object it owns exactly once",
         "An object handed to a collection belongs to it: it can be looked up at its position, in order of addition, and is freed exactly once - when it is freed by position, when the collection is cleared, assigned to or ends - unless it is "
         "released, after which the collection leaves an empty place and never frees it. The number of objects counts places; freeing a position closes the gap; positions that do not exist are refused; moving a collection moves all it owns. "
         "A method called through invoke_method gets its arguments, references as references, and its result is returned.",
         ["histories"], "every sequence of additions, releases, frees, clears and moves over several collections",
         "Tests run one sequence and never observe a destruction.",
         [I + "utils.hpp", I + "meta.hpp"], [("ownership", "Collection::add_object/release_object/free_object/clear"), ("forwarding", "invoke_method")],
         [("objs", "slots with objects", "Collection::objs")], ["get_object()", "num_objects()", "destructors of the objects"],
         "TLA+ specification of slots and owners (spec/Own.tla): TLC shows that every object is in exactly one place; model histories and random ones run on real collections of objects that report their destruction, under AddressSanitizer, each event validated by TLC",
         "Model exhaustive for 3 (thorough 4) objects, two collections and 7 (9) operations; about 800 histories of up to 45 operations per run.")
    prop("C10", "A ring buffer wraps every index",
         "In a ring of n values every integer names a value, indices that differ by a multiple of n name the same one and 0 to n-1 name them in order: through subscripts and through iterators alike, which may move "
         "any distance in either direction and read and write what their index names. One pass from begin to end meets each value once. Resizing keeps the values that fit and adds zeros; reserving "
         "changes nothing; a copy is independent.",
         ["inputs", "histories"], "every size, every index including negative and very large ones, every sequence of writes, moves and resizes",
         "Tests only use non-negative indices below three times the size of one ring.",
         [I + "dsp/buffer.hpp"], [("wrapping", "RingBuffer::normalize_index")], [("buff", "values", "RingBuffer::buff")],
         ["operator[]", "iterators", "size()"], TECH, NOTE)
