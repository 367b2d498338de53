BASE="Every listed function of /repo is verified against its contract for all inputs and iterations, over real arithmetic (rounding excluded) and mathematical integers; assumed contracts (assembly kernels in the default configuration, standard library) and bounded stand-ins are listed in the evidence."
CLAIMED={p:BASE for p in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C14 C16 C17 C18 C22 C23 C15 C20 C21 C29 C19 C13 C26 C25 C27 C24 C28".split()}
NA={}

LEVEL={"C24":"exploration"}
TECH={"C24":"bounded stand-in for contracts: the traversal is reflection on the type of the model, which the verifier does not model; the real functions are compared with the contents of random models (bounded, nothing counted as proved)"}
NOTE={"C24":"No function is proved: fields of every supported kind with random contents (nil, unsupported, shared and nested elements), depth up to 2, and models of the library; each visit is compared with the list made when the model was built."}
