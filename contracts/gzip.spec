// Compression.

func Gzip
params input
anchor C13 C12 C22
ensures a new buffer: result != nil
ensures[C12,C13] the gzip encoding of the input: uf("gunz", string, bytes(*result)) == old(bytes(input)) && uf("isgz", bool, bytes(*result))

func Gunzip
params input
anchor C13 C12 C22
ensures a new buffer: result != nil
ensures[C12,C13] the content of valid gzip data: implies(uf("isgz", bool, old(bytes(input))), bytes(*result) == uf("gunz", string, old(bytes(input))))
