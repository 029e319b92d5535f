HOOKS = ['9d78a02', '1e34f2e', '6f18657', 'fd54840']
NOT_YET = {}
NOTES = 'check.sh builds one harness (harness/, path dependencies on /repo) and runs one property. See DESIGN.md.'
TECH = {
 'C01': ('exhaustive enumeration of lengths, parameter sets and small contents on the real code, against an independent reference',
         'All cases within the bounds are executed on the real code; trusts the reference implementation (validated against hashlib vectors).'),
 'C02': ('exhaustive exploration of update sequences (buffer state x piece, depth-bounded) on the real code',
         'All piece sequences within the bounds, and all interleavings of two streams; trusts the reference digest.'),
 'C03': ('exhaustive enumeration of key and message lengths and of all small keys/messages for small user-defined hashes on the real code',
         'All cases within the bounds; trusts the reference HMAC (validated against CPython vectors).'),
 'C04': ('exhaustive enumeration of output lengths and of all small inputs on the real code',
         'All cases within the bounds; trusts the reference HKDF.'),
 'C05': ('exhaustive enumeration of all operand pairs and short operation programs in small fields, boundary operands in large ones, on the real code',
         'Complete for the small fields; boundary values only for large fields.'),
 'C06': ('exhaustive enumeration of conversion inputs (all byte strings, numerals and integers up to a bound) on the real code',
         'Complete for short inputs in small fields; boundary values for large fields.'),
 'C07': ('exhaustive enumeration of all operands and exponents in small fields, boundary operands in large ones, on the real code',
         'Complete for the small fields; boundary values only for large fields.'),
 'C08': ('exhaustive exploration of the tree of random words consumed, exact distribution per node, on the real code',
         'Complete tree of generator outputs for small fields up to a number of rejections; scripted boundary words for large ones.'),
 'C09': ('exhaustive enumeration of generators, key pairs and exchange orders in small groups, boundary keys in large ones, on the real code',
         'Complete for the small groups.'),
 'C10': ('exhaustive enumeration of moduli, key pairs and messages in small fields, boundary messages in large ones, on the real code',
         'Complete for the small moduli; boundary messages for large ones.'),
 'C11': ('explicit-state exploration of all histories of send / deliver / lose / reorder on cloned real protocol objects, against a delivery oracle',
         'All histories up to the stated numbers of messages and turns; primitives replaced by mixing functions (plus a run with SHA-1/Mersenne127).'),
 'C12': ('explicit-state exploration of all histories with duplicate deliveries on cloned real protocol objects',
         'All histories up to the stated bounds; primitives replaced by mixing functions.'),
 'C13': ('explicit-state exploration of protocol histories with symbolic primitives; exact key-derivation closure (Dolev-Yao) over the memory of the real objects',
         'All histories up to the stated bounds; symbolic primitives assume perfect cryptography.'),
 'C14': ('explicit-state exploration of protocol histories with a compromise at every point; exact derivation closure with symbolic primitives on the real objects',
         'All histories and compromise points up to the stated bounds; perfect cryptography.'),
 'C15': ('exhaustive enumeration of secrets, polynomials, share counts, thresholds and coalitions on the real code',
         'Complete for the small fields and sizes stated; fixed polynomials for large ones.'),
 'C16': ('exhaustive exploration of the tree of random coefficients, exact distribution of every coalition view, on the real code',
         'Complete tree for the small fields and sizes stated.'),
 'C17': ('exhaustive enumeration of operation trees over all small secrets and polynomials on the real code',
         'All expression trees up to the stated depth in small fields.'),
 'C18': ('exhaustive exploration of secrets, triples and polynomials in a simulated multi-party network running the real protocol code',
         'Complete for the smallest fields and party counts; larger batches with fixed randomness.'),
 'C19': ('exhaustive exploration of all contributions and polynomials, exact distributions, in a simulated network running the real protocol code',
         'Complete for the smallest fields and party counts.'),
 'C20': ('exhaustive exploration of secrets, masks and triples in a simulated network running the real protocol code',
         'Complete for the smallest fields and party counts; larger batches with fixed randomness.'),
 'C21': ('exhaustive exploration of bit vectors, masks and triples in a simulated network running the real protocol code',
         'All bit vectors for small lengths; masks complete for one and two bits in the smallest fields.'),
 'C22': ('exhaustive exploration of conditions, operands and triples in a simulated network running the real protocol code',
         'Complete for the smallest fields and party counts.'),
 'C23': ('exhaustive exploration of all randomness per secret input, exact comparison of the multisets of openings and views, on the real protocol code',
         'Complete randomness for the smallest fields; multisets are compared by 128-bit hashes.'),
 'C24': ('stateless model checking: all operation sequences and all lock-level interleavings up to a deviation bound, each in a freshly forked process of the real code',
         'All sequences up to a depth and all schedules up to the deviation bound; scheduling points at the table locks (hook).'),
 'C25': ('stateless model checking of the real protocol code: all delivery and polling orders up to a deviation bound (unbounded for small instances)',
         'All schedules within the bounds; simulated network with eager and lazy senders.'),
 'C26': ('exhaustive enumeration of batch sizes and party counts; rounds counted in a synchronous simulated network running the real code',
         'All batch sizes up to the bound.'),
 'C27': ('exhaustive enumeration of an alphabet of trait shapes and argument tuples through the generated code',
         'All shapes of the alphabet and argument tuples; other shapes are not covered.'),
 'C28': ('exhaustive enumeration of small valid inputs of every operation; complete randomness for joint random bits once they are implemented',
         'Two listed findings: RSA key generation and joint random bits are unimplemented.'),
 'C29': ('exhaustive enumeration of all programs of protocol steps up to a length, and of all points where one session interrupts another, in a simulated network running the real protocol code',
         'All programs up to the stated length over the stated step shapes; randomness fixed and well spread.'),
}
