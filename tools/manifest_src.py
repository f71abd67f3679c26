TECHNIQUE = {
    None: 'TLA+ specification explored exhaustively by TLC; every transition of the explored graph is replayed on the code and its result and state compared (model-based conformance)',
}
NOTES = {
    None: 'Exhaustive within the constants of the specification; the code is bound by replaying every explored transition plus seeded random walks.',
}
NOT_APPLICABLE = {}
