## Checksum::check
validate_hex_digest(p1, self~MD5.hash)
    self is MD5
validate_hex_digest(p1, self~SHA256.hash)
    self is SHA256
## digest::validate_hex_digest
[accepts]
    Eq(encode(finalize(new())), p1)
copy(new(open(p0)), IoWrapper{0: new()})
