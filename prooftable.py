"""Per property: (level, what the discharged contracts establish and what they leave to the bounded step)."""
LEVELS = {
    "P01": ("proof", "proved for all inputs, from the contracts of every function on the way from value to text and from text to value (all discharged in this check): theorem_json, a JSON value encoded and decoded is the value, up to the column order of table rows and the spelling of whole floats. Assumed: serde_json's side of serde (Value's Serialize makes the prescribed calls, its Deserialize keeps what deserialize_any gives it), arrays fit a usize, the float axioms"),
    "P02": ("proof", "proved for all inputs: every quoting, escaping, unescaping and token function a string goes through, how lines are cut into tokens, and that a string in any position of any value is read back as itself (theorem_meaning, theorem_same, theorem_strings). Assumed: serde's side, as for P01"),
    "P03": ("proof", "proved for all inputs: which value each token has, which strings are quoted, and that the token written for a value reads back as that value. Assumed: std's integer and float parsing does what its documentation says"),
    "P04": ("proof", "proved for all inputs: the text of every float is canonical and non-finite ones are null, and every way from a value or serde's calls to the text writes numbers only through it (every function of the encoder discharged in this check). The builds without serde_json: their number Display here, their encoder by the contracts P15 discharges. Assumed: ryu gives the shortest decimal"),
    "P05": ("proof", "proved for all inputs: no panic, no overflow and termination of the whole path from text to value (scanner, indentation check, parser, path expansion, wrappers) and of the serde deserializer. Assumed: the target type's own code, unbounded stack and memory (the two known findings are where the stack ends)"),
    "P06": ("other", "proved for all inputs: the decoder computes exactly the specified meaning, and theorems on that meaning at every array: a declared length that differs from the items found, or a row or inline array with another width, rejects the document (strict mode), and an array that is accepted has exactly the declared length; bounded: replay on whole documents"),
    "P07": ("other", "proved for all inputs: the decoder computes exactly the specified meaning in both modes; what strict mode accepts lenient mode accepts with the same value; blank lines between rows and items are rejected in strict mode; bounded: that no line of an accepted strict document is without effect"),
    "P08": ("proof", "proved for all inputs, on every decoding entry point: a strict decoding fails with the first misindented line if there is one and is otherwise not rejected for it; lenient decoding ignores indentation units"),
    "P09": ("proof", "proved for all inputs, on every encoding entry point (every function of the encoder discharged in this check): a table exactly for eligible arrays, with the stated header, columns and rows. Assumed: serde's side, as for P13"),
    "P10": ("proof", "proved for all inputs, on every encoding entry point (every function of the encoder discharged in this check): every line has the stated layout, and the text is these lines joined by line feeds. Assumed: serde's side, as for P13"),
    "P11": ("other", "proved for all inputs: what folding writes, its limits, and what path expansion makes of any value; bounded: that the two are inverse over whole documents"),
    "P12": ("other", "proved for all inputs: path expansion computes exactly the specified deep merge in both modes, and is applied exactly when asked for; bounded: which keys the parser marks as quoted in whole documents"),
    "P13": ("proof", "proved for all inputs: both serialiser implementations and all entry points write exactly the document specified for the value's JSON form, and fail in the same cases (a key that is no scalar, an error of the value's own), and that document is decoded into that JSON form (theorem_json_form, folding off). Assumed: a value's Serialize makes the calls that serde prescribes; bounded: the derive macros' side, decoding with folding and expansion"),
    "P14": ("other", "proved for all inputs: decoding from a string and from a reader meet one contract that fixes the result, also into a type, and the deserializer hands a type exactly the decoded value; bounded: decoding into a type against serde_json's conversion of the generic value"),
    "P15": ("other", "proved for all inputs: every function that reads differently under some choice of features (found mechanically on each run) is under contract in each of its readings: the splitting functions with and without memchr and smallvec meet one contract, and the serialiser, value builder and encoder of the builds without serde_json write the document specified for the default build (theorem_one_document); all other functions have one reading. The default build's side of that contract is discharged by the checks of P13 and P09. Assumed: SmallVec, memchr and the searches in a vector of members do what their documentation says; bounded: the builds themselves, compared case by case, lexical number parsing among them"),
    "P16": ("other", "proved for all inputs: a value whose type's Deserialize undoes its Serialize (as serde's derives promise) is encoded and decoded to itself, folding and expansion off (theorem_type); bounded: that the derives of the listed types keep this promise on toon's deserializer, and folding with expansion"),
    "P18": ("other", "proved for all inputs: the encoded text is a function of the value and the options alone; with folding off, encoding what the encoded text means gives that text again (theorem_again, theorem_stable); bounded: the same with folding and expansion on"),
    "P19": ("other", "proved for all inputs: trimming, line scanning, header and cell splitting, and that the decoder computes the specified meaning; bounded: that equivalent spellings have one meaning as whole documents"),
}
# The lemmas that state a property, by module
THEOREMS = {
    "P01": ["read::theorem_json", "trip::theorem_round_trip_value", "trip::theorem_meaning", "trip::theorem_same", "trip::theorem_document"],
    "P02": ["trip::theorem_strings", "trip::theorem_same", "trip::theorem_meaning"],
    "P03": ["back::lemma_prim_back"],
    "P04": ["numtext::theorem_canonical"],
    "P09": ["forms::theorem_table", "forms::theorem_table_lines", "forms::theorem_no_table"],
    "P10": ["layout::theorem_layout", "layout::theorem_lines"],
    "P15": ["ser::alloc_entry::theorem_one_document", "ser::alloc_entry::theorem_unfolded_document"],
    "P13": ["ser::theorem_encode_agree", "read::theorem_json_form"],
}
