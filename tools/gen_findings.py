#!/usr/bin/env python3
"""Writes known-findings.jsonl from the list below."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
FIXED = [
 ('C01', '8772393', 'a variable-length integer with more bits than the decoded type had its bits dropped instead of being refused'),
 ('C02', '1d0fbe3', 'the wire format tagged fixed-width lengths with a byte count which is not theirs, so sequences under fixed length options did not read back'),
 ('C08', '199be64', 'skip counters in wire and descriptive overflowed on hostile lengths'),
 ('C07', '24551b3', 'descriptive skip_sequence_remaining left elements behind'),
 ('C11', 'd724c2a', 'JSON integers just beyond the range overflowed instead of being refused'),
 ('C02', 'e884477', 'the bitwise fast path was taken for the foreign byte order'),
 ('C20', 'e5da5b4', 'phf lookups missed stored keys'),
 ('C17', '3ed3e77', 'usize-sized references ignored their byte order'),
 ('C17', 'ff53fa5', 'Ref::array_into_slice swapped the offset twice'),
 ('C17', '634411d', 'coercing a reference misread metadata of the foreign byte order'),
 ('C16', '168ba82', 'load_at / swap with offsets near usize::MAX overflowed'),
 ('C16', 'd7d9c2b', 'load_uninit_mut overflowed on out of bounds offsets'),
 ('C19', 'd3adf01', 'swiss tables reported the number of buckets as their length'),
 ('C14', '9faf9a4', 'the slice allocator reused headers still linked in the free list'),
 ('C14', '0d26609', 'the slice allocator placed headers inside of allocated regions'),
 ('C14', 'bdcc78a', 'the slice allocator merged with a region other than the one merged'),
 ('C15', 'ef9f7bc', 'slice allocations reported capacity in bytes and overflowed on large requests'),
 ('C15', '43c0de4', 'zero-sized values moved into an allocation were dropped twice'),
 ('C03', '79b886a', 'storage accepted option markers other than zero and one'),
 ('C06', 'aae15b5', 'a signed number was refused as an unsigned type it fits in the descriptive format'),
 ('C22', 'd5aab8f', 'converting an optional negative non-zero number aborted'),
 ('C16', '532014f', 'fields nested in packed or unaligned values were validated at the wrong place'),
 ('C18', 'a73c61c', 'zeroing the padding of packed structs overwrote their fields'),
 ('C11', 'd12cad0', 'numbers written with zeros behind the decimal point and an exponent (1.00e1, 0e5) were refused as integers'),
 ('C11', '1303499', 'an object key with characters after the number (12x) was accepted as that number'),
 ('C13', '80e1485', 'decoding a JSON array longer than the byte array wanted wrote out of bounds and panicked instead of being refused'),
 ('C25', '7c61fef', 'an empty value inside of an option or a sequence was dropped when encoded into a dynamic value'),
 ('C06', '2b13fa6', 'the descriptive format consumed the tag of a number twice through one entry point'),
]
with open(os.path.join(ROOT, 'known-findings.jsonl'), 'w') as f:
    for p, c, w in FIXED:
        f.write(json.dumps({'property': p, 'status': 'fixed', 'commit': c, 'what': w,
                            'text': 'fixed: property=%s %s %s' % (p, c, w)}) + '\n')
