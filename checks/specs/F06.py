DESIGN = """Random emails are built through the API (groups, names that need quoting, address lists, repeated and long headers, non-ASCII values, preamble and epilogue, zero to nine parts whose text is full of line ends and boundary look-alikes, attachments with and without type, encoding and file name, with and without a container part, in any order), written and read back: every field is compared with the model before writing, after reading, and after a second round.
The stream reader is given the same texts in one piece and cut in up to 13 ways (every byte, around line ends and boundaries, random); the log of its callbacks, with adjacent data joined, must be the same. Damaged emails must be answered without a fault under the sanitizers, with an object exactly when there is no error."""


def check(r):
    k = 20 if r.thorough else 1
    exe = r.build("f06", ["f06_email.cc"], ["formats", "text"])
    r.mode(exe, "round", 4000 * k)
    r.mode(exe, "stream", 1000 * k)
    r.mode(exe, "hostile", 3000 * k)
    r.require("round.emails", 3900 * k)
    r.require("round.attachments", 1500 * k)
    r.require("stream.segmentations", 8000 * k)
    r.require("hostile.accepted", 300 * k)
    r.require("hostile.refused", 300 * k)
    return r.finish("a case is one random email written and read back, one read in 12 segmentations, or one damaged; distinct by text", ["Header values and names hold no line ends and no repeated white space; file names hold no quotes or semicolons", "The text is not cut within the closing boundary and the epilogue: the reader's interface has no end mark after them", "With a container part the attachments follow the other parts"])
