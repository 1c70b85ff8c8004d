FIXPROP = [
    ('typed vectors under creation', 'C05'), ('which hold read values', 'C05'),
    ('without an error pointer', 'C05'), ('by type group', 'C05'), ('at the first error', 'C21'),
    ('buffers of read vectors are read-only', 'C06'), ('refuse buffers of value vectors', 'C06'),
    ('range of read vectors', 'C06'), ('range of primitive vectors', 'C09'),
    ('appending a bitvector to itself', 'C08'), ('keep the count of set bits', 'C08'), ('deleting an item of a bitvector', 'C08'), ('whose hash is -1', 'C08'),
    ('bitvectors from sequences leaked', 'C08'), ('copied and read bitvectors', 'C20'),
    ('appending a primitive vector to itself', 'C09'), ('deleting an item of a primitive vector', 'C09'), ('negative index of a primitive vector', 'C09'), ('collected by FromRemap', 'C15'), ('pop_bulk shrank', 'C11'),
    ('slices and remaps of primitive vectors', 'C20'), ('filling a primitive vector from a sequence', 'C09'), ('primitive vectors which were never initialised', 'C09'),
    ('did not check the upper bound of signed projections', 'C10'), ('errors of the sort comparison', 'C10'), ('refuse to sort a projection by itself', 'C10'),
    ('a failed write left its temporary', 'C12'),
    ('an item count of 2^31 or more in a set or map', 'C13'),
    ('validation printed to standard output when refusing', 'C13'),
    ('a file of the version with 32-bit offsets was opened', 'C13'),
    ('iterating over the map or set entries of one hash', 'C18'),
    ('looking up a stored tuple with unhashable items crashed', 'C13'),
    ('a value refused by serialisation left all values', 'C15'),
    ('serialising to a bytearray leaked the output buffer', 'C15'),
    ('intop_u32_mult was declared but not defined', 'C22'),
    ('the expression compiler read beyond the tokens', 'C22'),
    ('operators of the same precedence in an expression', 'C22'),
    ('the operands of subtractions and divisions in an expression', 'C22'),
    ('looking up an empty string by its length read', 'C18'),
    ('map lookups by a wide string hashed', 'C18'),
    ('integers with a sign were refused in path', 'C17'),
    ('path expressions returned items of 64-bit vectors', 'C17'),
    ('output to a buffer ends', 'C23'),
    ('an empty vector given a buffer leaked', 'C23'),
    ('failed handles in set_add', 'C23'),
    ('running out of memory inside Judy arrays', 'C14'),
    ('running out of memory at the start of an output', 'C14'),
    ('the items of exported sets', 'C14'),
    ('a Judy array which ran out of memory', 'C14'),
    ('the value of a map key which could not', 'C14'),
    ('leaves made while a Judy array', 'C14'),
    ('a slice of a read value vector was serialised', 'C19'),
    ('a slice of a cyclic vector was printed', 'C20'),
    ('values listed in a map against its hash order', 'C21'),
    ('re-creating a value overflowed the stack', 'C21'),
    ('opening a buffer read it while', 'C16'),
    ('initialising an opened handle again', 'C15'),
    ('a handle which was never opened crashed', 'C15'),
    ('created without a file crashed', 'C15'),
    ('an exhausted iterator released its container twice', 'C16'),
    ('meant different files for writing', 'C24'),
    ('gave the values after them wrong offsets', 'C01'),
    ('more items than the format counts were stored altered', 'C01'),
    ('indexed modulo 2^32', 'C09'),
]
KNOWN = [
    dict(id='K01', property='C04', status='known', match=r"64-bit items hash differently from equal floats: \('float', (4294967296|8589934592|1099511627776|9223372036854775808|3298534883328|-4294967296|-8589934592|-9223372036854775808)\)",
         what='integers outside the 32-bit range in i64/u64 vectors hash by their low 32 bits, equal floats by their bits (the hash is part of the file format)'),
]
