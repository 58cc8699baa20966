COMMON = ('Sampled executions, no proof: says the property held on every execution observed (counts in evidence). '
          'Trusts the independent encoder/parser in wv/refwarc.py, CPython and zlib/hashlib. ')


def claim(pid, tech, note):
    TECH[pid] = 'runtime monitoring: ' + tech
    NOTE[pid] = COMMON + note


claim('C01', 'differential oracle against independently encoded archives, generated workloads',
      'Every field and byte of every yielded record is compared with the model the archive was encoded from.')
claim('C02', 'metamorphic oracle: full-consumption run of the same archive is the reference for random partial-consumption runs',
      'Only consumption through the documented streams and iterator methods.')
claim('C03', 'monitored sources (short reads, no seek/tell, byte accounting), results compared with the whole-buffer run',
      'Short-read policies are sampled, block sizes from 1 byte to above 64 KiB.')
claim('C04', 'online oracle: known extents of independently encoded archives; every reported extent reopened as slice and by seek',
      'Extents of plain records are header plus block, separators excluded, as the code documents.')
claim('C05', 'yield-trace oracle: the sequence of events (records, error) of each iteration is checked against the member grouping',
      'Random groupings, including empty members and block sizes around the member ends.')
claim('C06', 'round-trip oracle through the real writer and an independent strict parser, over several generations',
      'Values the caller may not give (line breaks, wrong lengths) are outside the claim.')
claim('C07', 'independent strict WARC parser run on what reached the output after every single write',
      'The parser in wv/refwarc.py is the specification of well-formed.')
claim('C08', 'independent digest computation over the bytes found in the written archive',
      'hashlib is the reference.')
claim('C09', 'model-based verdict oracle over generated digests, corruptions and read patterns; raise, log and record modes compared',
      'Lenient base64 decoding of trailing junk is outside the claim.')
claim('C10', 'oracle over exit status and output lines of the real command (in process and as a process)',
      'Which records are damaged is known by construction.')
claim('C11', 'differential oracle: independently coded bodies against the decoded stream, random read patterns and cut-offs',
      'Multi-member gzip bodies and bodies cut off in the very first chunk line are outside the claim.')
claim('C12', 'online contract monitor over random call sequences on every reader class, with a monitored source beneath',
      'Reader stacks are sampled (buffered, limited, decompressing, dechunking, digesting).')
claim('C13', 'crash-point sweep: every cut position of each generated archive read back, trace checked against the model',
      'Exhaustive over cut positions of each archive of the workload, archives are sampled.')
claim('C14', 'fault injection at every output, payload and flush call in turn; surviving bytes checked by the strict parser',
      'Exhaustive over fault points of each session of the workload; sessions are sampled.')
claim('C15', 'work-budget monitors (source reads, bytes out, CPU watchdog, recursion) over mutated and arbitrary inputs',
      'Termination is judged by budgets far above what linear work needs.')
claim('C16', 'differential oracle against independently encoded ARC archives', 'ARC version 1 header lines, as warcio documents.')
claim('C17', 'differential oracle over converted records, and strict parsing of their written form',
      'Dates from 1000 to 2999.')
claim('C18', 'oracle over the real command: output strictly parsed and compared with the records of the input',
      'Inputs are generated archives in all groupings and corrupted ones.')
claim('C19', 'oracle over the real command: each line parsed and compared with values known from the model',
      'Field values known by construction; offsets checked by extents.')
claim('C20', 'byte-exact oracle over the real command on independently encoded archives',
      'Headers with non-ASCII bytes are compared after the documented re-encoding.')
claim('C21', 'offline conservation check: event log of an independent HTTP server against the records captured, exactly once',
      'Loopback only: HTTP, TLS, IPv6, proxy and tunnels; http.client, urllib, requests and urllib3 as clients.')
claim('C22', 'differential oracle: client results inside and outside capture; scope, filters and file state checked after each step',
      'Loopback only; failed exchanges may be recorded with what was received.')
claim('C23', 'model-based monitor: a list model run beside the header container under random operation sequences',
      'Duplicate-name removal follows the model documented in DESIGN.md.')
claim('C24', 'decode-back oracle over written headers with arbitrary Unicode text',
      'Texts with line breaks are outside the claim.')
claim('C25', 'assertions on every built record against the arguments given, and arguments compared before and after',
      'Random argument combinations.')
claim('C26', 'differential oracle against datetime arithmetic in UTC, in processes with many time zones',
      'Years 1000 to 2999 as stated.')
claim('C27', 'differential oracle: outputs of the same command over all kinds of input and output; descriptors watched',
      'File paths and names, file://, memory://, zip, HTTP and S3 (moto) on the loopback network, a monitored fsspec file system, open '
      'files, standard input/output.')
claim('C28', 'resource monitors: allocation peak at several sizes, open descriptors and temporary files after each operation',
      'Bounds are absolute and generous compared to buffer sizes.')
claim('C29', 'interleaving stress: operations of many objects interleaved by a random scheduler and by threads with forced '
      'switches, against each run alone', 'Thread interleavings are sampled by switches forced at lines and bytecodes of the library.')
claim('C30', 'trace monitor: exceptions raised, bytes delivered and bytes taken from the source, against a reference of chunked coding',
      'Random kinds and places of malformation; what a reader that does not raise returns for a body that is cut off is C11.')
claim('C31', 'online monitor: error count and standard error after every record against the known places of excess lines',
      'Offsets are compared in uncompressed files.')
claim('C32', 'fault injection with an oracle: error or normal end, records before the damage, exit status, against damage known by construction',
      'Random places and kinds of damage; damage that looks like a missing end of the archive, or leaves no recognizable member, is outside.')
