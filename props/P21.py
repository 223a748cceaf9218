from props.P10 import FEW, NATIVE
JOBS = FEW
LEVEL = "other"
TECHNIQUE = "bounded CBMC check of WSS_parse_header's extension part (goto-instrument loop contracts for the header lines, the extension list unrolled); directed native search on the real parser"
NOTE = ("Bounded: at most two offers and two loaded extensions in the proof part, with names, parameters and header lines of any length; offers in any number, order and spelling in the native part. What an extension accepts is its own choice: the shipped permessage-deflate is not covered (P22).")
EXPLAIN = ("For every state in which the header lines can leave the parser: each entry of the list is looked up by name and asked once; exactly the extensions that agreed are enabled, each at most once, in the order offered, with the parameters they accepted; names of the others and the list are released; "
           "a refused allocation leaves what is enabled consistent. The answer names what is enabled (P08).")
TRUSTED = ["string functions as in P10", "the extension's own open function is an arbitrary one"]
ASSUME = ["an extension's open function keeps to its interface"]
