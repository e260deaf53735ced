CODE = "recorded runs of the real code validated against the specification (trace validation)"
PIPE = CODE + ": every stage of the evaluation is judged against the specification applied to the inputs the code used"
MORE = {
 "C13": PIPE, "C14": PIPE,
 "C15": "optimality and well-foundedness of the label specification proved by exhaustive search over all strategies of small networks (MStrategy), and " + PIPE,
 "C16": PIPE, "C17": "boundary cases of the walking split enumerated and replayed on the real code, and " + PIPE,
 "C18": PIPE, "C19": PIPE, "C20": PIPE, "C21": PIPE, "C22": PIPE, "C23": PIPE,
 "C24": "exhaustive model of the outer loop over all sequences of inner outcomes (MOptim), every behaviour replayed on the real loop with a scripted inner optimiser, and " + CODE,
 "C25": PIPE, "C26": PIPE,
 "C28": PIPE + "; the listings are read back and judged against the recorded objects",
 "C29": CODE + ": what lies on the sheet when it is saved or shown is recorded and judged against the recorded city, routes and paths",
 "C27": "model of sessions (MSession) whose transitions are covered by walks on the real code, and " + CODE,
}
