o("C21", "C21-digits-outside-ascii", "isdigit/isdecimal/isnumeric use Rust's numeric class: CJK numerals and superscripts differ from Python",
  "assert rp.char.isnumeric(rp.array(['\\u4e94'])).tolist() == [True]")
o("C21", "C21-one-to-many-case", "upper of characters whose mapping is several characters keeps the first only (documented in the source)",
  "assert rp.char.upper(rp.array(['stra\\u00dfe'])).tolist() == ['STRASSE']")
o("C25", "C25-augmented-assignment", "a += b (and the other augmented assignments) rebinds the name to a new array instead of writing into a, so views of a do not see it",
  "a = rp.array([1.0, 2.0]); v = a[:]; a += 1; assert v.tolist() == [2.0, 3.0]")
