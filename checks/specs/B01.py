def check(r):
    exe = r.build("b01", "b01_buf.cc", ["base"])
    r.mode(exe, "ops", 400000 if r.thorough else 60000)
    r.require("ops.ops", 100000)
    return r.finish("a case is a random history of 40-60 buffer operations (50 kinds, boundary-heavy lengths, widths and integers) run on M_buf and on an ideal byte string, "
                    "compared after every operation (content, length, terminator, result); distinct = hash of the operation/length history",
                    ["the ideal byte-string model in harness/b01_buf.cc is right"])
DESIGN = """Decided by lock-step comparison: 50 operation kinds on M_buf and on std::string, compared after every step (content, length, terminator, result) under
ASan/UBSan. 60k histories quick, ~5 s. Corrected: "failure leaves content unchanged" is required of the encode/decode/binary/bcd/hex appends only; the *_just family
truncates by design (documented). Not covered: M_buf_add_decimal_just right padding and M_buf_add_bytes_hex's result on invalid text (ambiguous documentation)."""
