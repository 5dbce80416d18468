"""Claimed properties: technique and what the check assures."""
EQ = 'abstract interpretation of MIR to a transition system; product equivalence with a specification function'
GR = 'the grammar compiled to a finite automaton of annotated documents; language comparison with a reference grammar'
NOTE = ('Both sides are compared for every input (no bound): any jointly possible pair of paths must return the same value. Reported only with a '
        'concrete joint path; a change the analysis cannot follow is recorded as undecided in the evidence and does not alarm. Trusted: rustc\'s MIR, '
        'the models of std/regex functions in analysis/models.py, the specification in probe/src.')
GNOTE = ('Every text of the stated class is covered: all documents with one instruction (two in the thorough tier for C03), and documents of any length '
         'without quotes; a difference is reported with a text and how each grammar reads it. Trusted: analysis/peg.py (the semantics of pest) and '
         'analysis/reference.grammar.')
CLAIMS = {p: (EQ, NOTE) for p in 'C04 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C29 C30 C31 C34 C35'.split()}
CLAIMS.update({p: (GR + "; " + EQ, GNOTE + " " + NOTE) for p in "C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C33".split()})
CLAIMS.update({p: (EQ, NOTE) for p in "C17 C18".split()})
CLAIMS.update({p: (GR + '; ' + EQ, GNOTE + ' ' + NOTE) for p in 'C03 C16'.split()})
CLAIMS['C32'] = ('effect analysis over MIR with a table of the effects of std and dependency functions; compile-time witness of Send and Sync for every public type',
  'Every function of the library that the public API reaches is inspected; a violation names the call, static or type. Functions that are not in the table are '
  'recorded as undecided. Trusted: the table (std functions not listed as having an effect, and pest, regex, enquote, snafu and lazy_static, are taken as pure).')
TT = ('absence of panics and endless loops in the transition systems of MIR: linear invariants (Houdini), disjunctive exploration under facts of the grammar, '
      'ranking functions, a decreasing argument for every recursive call')
TNOTE = ('Every panicking transition (unwrap, index, slice, arithmetic, explicit panic) of an entry point is shown unreachable, every loop and every recursive call is given a '
         'quantity that decreases. What cannot be shown is reported only with a concrete path all of whose conditions are decided exactly (string conditions over automata, with the '
         'language of each token); otherwise it is recorded as undecided. Trusted: rustc\'s MIR, the models of std functions, that pest itself returns; allocation failure is not considered.')
CLAIMS.update({p: (TT, TNOTE) for p in ('C01', 'C02')})
NOT_APPLICABLE = {}
