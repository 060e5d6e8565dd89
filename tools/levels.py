SWEPT = ' Besides, runs in their tens of thousands are carried out and weighed against one another and against Python\'s re; TLC decides those which stand out.'
TV = 'TLA+ specification; TLC checks recorded API traces against it'
COMMON = ('TLC decides every call of generated scenarios, run in the real library, against the specification of the API (spec/Lightgrep.tla); '
          'assurance is that of the scenarios explored, which are random but reproducible from the seed. ')
COMMON_CLI = ('TLC decides what generated runs of the program print against the specification of the program (spec/Tool.tla, on top of spec/Lightgrep.tla); assurance is that of the runs explored, which are random but reproducible from the seed. ')
TT = 'TLA+ specification; TLC checks recorded runs of the command line against it'
LEVELS = {
 'P01': (TV, COMMON + 'The reference semantics of hits is the preference-ordered match relation in spec/Match.tla. Where a bounded repetition has a body which can match nothing, any of the possible matches is admitted.'),
 'P02': (TV, COMMON + 'Each keyword of a set is compared with its own reference semantics.'),
 'P03': (TV, COMMON + 'The hits of all buffers together must be those of the whole text.'),
 'P04': (TV, COMMON + 'The lower bound is that of matches which the pattern itself could still complete.'),
 'P05': (TV, COMMON + 'Every depth must yield the reference semantics.'),
 'P06': (TV, COMMON + 'Called on fresh contexts only.'),
 'P07': (TV, COMMON),
 'P08': (TV, COMMON + 'Lives of contexts are interleaved by call, or run in concurrent threads with the schedule of the machine.'),
 'P09': (TV, COMMON),
 'P10': (TV, COMMON + 'The grammar is written down anew in spec/Pattern.tla; Unicode facts come from ICU.'),
 'P11': (TV, COMMON),
 'P12': (TV, COMMON + 'Tables of legacy encodings come from ICU, asked independently of the library.'),
 'P13': (TV, COMMON),
 'P14': (TV, COMMON + 'The window is specified in spec/Window.tla; buffers have at most some 30 bytes.'),
 'P15': (TV, COMMON + 'The window is specified in spec/Window.tla; buffers have at most some 30 bytes. A NUL counts as what does not decode.'),
 'P16': (TV, COMMON),
 'P17': (TT, COMMON_CLI + 'Files of up to 40 bytes with block sizes from 1 byte.'),
 'P18': (TT, COMMON_CLI + 'Files of up to 44 bytes.'),
 'P19': (TT, COMMON_CLI),
 'P20': (TT, COMMON_CLI + 'The samples are those of the generator with its fixed seed.'),
 'P21': (TT, COMMON_CLI),
 'P22': (TV, COMMON + 'The calls are those of the Python binding, on the library built with AddressSanitizer; the number of bad bytes in a context is not told by the binding.'),
 'P23': (TV, COMMON + 'The calls are those of the Java binding, on the library built with AddressSanitizer, in a virtual machine with -Xcheck:jni. Known finding: search returns an int.'),
 'P24': (TV, COMMON + 'Unicode facts come from ICU, asked independently of the library.'),
 'P25': ('TLA+ specification of the lives of objects (spec/Calls.tla), model checked with TLC; its behaviours are carried out on the library under AddressSanitizer, and TLC checks what came of each call',
         'Histories of 40 calls (70 in the thorough tier) with inputs of the classes named in the model. Memory errors are those which AddressSanitizer sees, leaks those which it counts. Serialized programs are given whole or cut short, not altered. Known finding: patterns of some 100000 characters exhaust the stack.'),
 'P27': (TV, COMMON + 'Memory is what operator new was asked for and has not been given back, at its highest in the call; the bound is that of Kept in spec/Lightgrep.tla, with room for every repaired and known layout, so that growth by powers is detected, and growth by a constant is not.'),
 'P26': ('TLA+ specification of the reader and searcher, model checked with TLC; its behaviours are replayed into the program, whose events TLC checks',
         'All interleavings of files of up to 3 blocks (4 in the thorough tier) are in the model; of these, those drawn are forced on the two threads of the program at the granularity of calls to fread and lg_search.'),
}
NA = {}
for k, v in [('P%02d' % i, 'not yet built') for i in ()]:
    NA[k] = v
for k in 'P01 P02 P03 P04 P05 P06 P07 P08 P09 P27'.split():
    LEVELS[k] = (LEVELS[k][0], LEVELS[k][1].rstrip() + SWEPT)
