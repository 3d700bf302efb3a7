"""Property texts and check descriptions (source of properties.jsonl and MANIFEST.json)."""
P = []
NA = []


def prop(id, title, statement, over, quant, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), quant=quant, why=why,
                  files=files.split(), mech=mech, technique=technique, note=note))


def na(id, title, statement, over, quant, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over.split(), quant=quant, why=why,
                   files=files.split(), mech=mech, reason=reason))


IR = ('Decided on the normalised LLVM IR of all translation units of the current source; every path of the '
      'control-flow graph is followed with a finite-state monitor, paths with contradictory branch conditions are pruned. ')

prop('C01', 'Every problem found while checking a proof reaches the user and the totals',
     '''Whenever reading or checking a proof reports an error to the user, that error is counted against the proof and
     the status handed back for the proof is an error status. The VERIFY PROOF summary says that all proofs were
     verified (or all except the incomplete ones) only if no checked proof had an error status, and a syntax-only run never says
     so at all.''',
     'inputs', 'every database, every proof and every way a proof can be wrong',
     '''The test databases contain a few dozen kinds of broken proof, one error at a time; the claim is about every diagnostic
     site in the proof reader and checker and every mixture of good and bad proofs.''',
     'src/mmveri.c src/mmcmds.c', [['diagnostics and error count of the proof reader', 'parseProof, parseCompressedProof'],
                                   ['status of the proof checker', 'verifyProof, assignVar'],
                                   ['summary of VERIFY PROOF', 'verifyProofs']],
     'path-sensitive typestate over the CFG (error status propagation)',
     IR + '''Obligation: each path from a diagnostic (or from the guard that only suppresses repeated diagnostics) must count
     an error and raise the returned status; in the summary the maximum of all statuses must guard the "all verified" messages.
     Trusted: clang IR generation, the definition of the diagnostic functions. Two known findings ($d violations are not counted).''')

prop('C02', 'A proof is accepted only when every step matched and the result is the theorem',
     '''A proof is reported as correct only if its last step was compared with the statement and found equal, and only if the
     hypotheses of each applied assertion were unified with the proof steps they stand on, with the failure of that
     unification making the proof wrong (unless a step involved is still unknown). The unification accepts only when scheme and instance were both consumed to their
     ends, constants were equal, and repeated variables got identical substitutions.''',
     'inputs', 'every proof, every substitution, every symbol string',
     '''Soundness is a claim about all wrong proofs; the tests contain a handful, each wrong in an obvious place.''',
     'src/mmveri.c', [['result comparison and use of unification results', 'verifyProof'],
                      ['scheme/instance matching', 'assignVar']],
     'path-sensitive typestate and counting-loop analysis on the CFG',
     IR + '''Decides the accept paths: which comparisons every path to acceptance passes, and that comparison loops cover their
     whole range. It does not prove that the search for substitutions is complete.''')

prop('C03', 'Disjoint-variable violations never pass unreported',
     '''When a proof step applies an assertion with $d conditions, then for each of its $d pairs and every pair of variables taken one
     from each of the two substituted expressions, verification either finds those two variables together in a $d condition of the theorem
     being proved (mandatory or optional) or reports a disjoint variable violation. Only constants are exempt, identical
     variables are not.''',
     'inputs', 'every proof, every $d pair of the applied assertion, every pair of variables of the substituted expressions',
     '''The property quantifies over all pairs of symbols in substitutions of any length; the tests contain three small cases.''',
     'src/mmveri.c', [['$d check while unifying', 'assignVar']],
     'path-sensitive typestate and counting-loop analysis on the CFG',
     IR + '''Obligation: each round of the three nested scans either reports, skips a constant or has found both variables at one index
     of a $d list of the statement being proved; the scans are complete and no result is built before them. How the entries are
     compared is recognised through array loads of the statement record; a rewritten data structure leaves the rule silent.''')

prop('C04', 'A proof refers only to what is available at its place',
     '''A step of a proof (normal or compressed) takes over an assertion only if that assertion precedes the theorem, a hypothesis only if it is one of the theorem's own
     (mandatory or optional) hypotheses, and a local or compressed label only if it has been declared earlier in the proof or is inside the
     label list; everything else is reported as an error. The proof stack is popped only when it holds enough entries, and a
     proof is passed only if exactly one entry is left, otherwise an error is reported.''',
     'inputs', 'every proof in either format',
     '''References to later theorems, exhausted stacks and bad labels come in unlimited positions and combinations; a test shows one each.''',
     'src/mmpars.c', [['label lookup, stack and label-list checks', 'parseProof, parseCompressedProof']],
     'path-sensitive must-pass analysis on the CFG',
     IR + '''Each label lookup, stack pop, label-map read and the end of the proof is an obligation: one of the admissible conditions must
     have been tested, or an error reported, on every path. The contents of the lists are checked at the stores that fill them.''')

prop('C05', 'Ill-formed statements are reported when a database is read',
     '''When a database is read, an error is reported for every statement in which: a symbol is not active at that place; a $d
     statement contains a constant or fewer than two symbols; another statement does not begin with a constant; a $f is
     not a constant followed by exactly one variable; a $c stands inside a scope; a symbol that is still active is declared again, or
     one is used both as constant and as variable; a $} has no matching ${ or a ${ is not closed at the end; and for every assertion
     with a variable that no $f hypothesis in scope covers, or for a variable with two $f hypotheses in scope.
     Every pair of variables of a $d statement is recorded as a disjoint pair.''',
     'inputs', 'every database, every position and every combination of such mistakes',
     '''The tests hold one example of some of these mistakes, each alone and in one position; the claim is about every symbol of every
     statement.''',
     'src/mmpars.c', [['statement loop of the parser', 'parseStatements']],
     'path-sensitive must-pass analysis on the CFG',
     IR + '''Obligation: each round of the loops over the statements and over their symbols, and each place where a symbol is taken, has
     passed the test that shows the construct to be well formed, or has reported an error. Label and token level mistakes are not part of this property.''')

prop('C06', 'The frame of an assertion follows its scope',
     '''What is declared within ${ and $} is undone at $}: variables, hypotheses and $d pairs of the closed scope are deactivated and
     those of the outer scope remain. The mandatory hypotheses of an assertion are exactly the $e hypotheses in scope and the $f
     hypotheses in scope whose variable occurs in the assertion or in those $e hypotheses, in order of appearance; its mandatory $d pairs are
     exactly those in scope with both variables occurring, all others are optional. Each list is stored with its own length.''',
     'inputs', 'every database, every nesting of scopes, every mixture of hypotheses',
     '''The frame determines what a theorem means; it depends on everything declared before it in all enclosing scopes, which tests
     sample with a few small files.''',
     'src/mmpars.c', [['scope stack and frame computation', 'parseStatements']],
     'path-sensitive must-pass analysis and counting-loop analysis on the CFG',
     IR + '''Obligation: each store into the scope stack, the hypothesis and $d work lists and the statement record is checked for what it stores,
     under which conditions, and whether the scans that feed it cover their whole range. Data structures that are no longer recognised leave the
     rule silent.''')

prop('C07', 'Lexical mistakes are reported and statements are cut where they are',
     '''When a database is read, each character that is neither printable ASCII nor white space, each comment that is not closed and each comment
     opener inside a comment is reported; each keyword opens, continues or ends a statement in the order the language
     prescribes (label, keyword, math symbols, $= and proof for $p only, $.), anything else is reported, and each statement gets the type of its
     keyword and exactly its own label, math and proof text. A label with an illegal character, a missing,
     unexpected, second or duplicate label, text after the last statement, an empty $c or $v, and a label equal to a math symbol
     are reported; $c declares constants and $v variables.''',
     'inputs', 'every source text, character by character',
     '''The tokenizer must be right for every text including ones cut off at any character; tests contain a few dozen files.''',
     'src/mmpars.c', [['keyword automaton', 'parseKeywords'], ['tokens, white space and comments', 'whiteSpaceLen, tokenLen, rawWhiteSpaceLen, rawTokenLen'],
                      ['character check', 'readRawSource'], ['labels', 'parseLabels'], ['declarations', 'parseMathDecl']],
     'product of the CFG with a specification automaton (abstract interpretation over an unbounded text); must-pass analysis for labels',
     IR + '''For the scanners each abstract state (position, character class, variables, state of the specification) is visited once; a state in which the code
     and the specification disagree is reported with the text that leads there. Labels and declarations: each round of a scan has passed the test that
     shows legality or has reported. Where the code leaves the abstract domain the machine goes silent for that path.''')

prop('C08', 'An existing file is never overwritten or deleted without a backup',
     '''Whenever a command writes a file whose name is already in use, the existing file has first been renamed to name~1, with older backups moved up to
     ~2 ... ~9; only the NO_VERSIONING qualifier of the command switches this off. If the backup cannot be made the file is left alone
     and the operation fails. Files are removed or renamed over only if the program has just created them
     (with a backup of the previous one) or nothing is there, and WRITE SOURCE deletes the included files of the old version only after the whole
     output was written and closed without error, and not with KEEP_INCLUDES.''',
     'inputs fault_sequences', 'every command that writes files, every state of the directory, every failing file operation',
     '''Tests write into empty directories and nothing fails there; the promise concerns existing files and failures.''',
     'src/mminou.c src/mmpars.c src/mmcmds.c src/mmwtex.c src/metamath.c',
     [['backup before truncating', 'fSafeOpen'], ['replacing by temporary file', 'fSafeRename'],
      ['deleting included files', 'writeSource, deleteSplits, writeSplitSource'], ['recovery after an error', 'writeBibliography, command']],
     'path-sensitive must-pass analysis, effect whitelist and value-origin analysis',
     IR + '''Every call of fopen, freopen, remove, rename and fSafeOpen is an obligation; the origin of each no-backup flag is followed through
     parameters to the qualifier. What happens when two programs write at the same time is outside.''')

prop('C09', 'Every file that is opened is closed again',
     '''On every path through every command, a file opened for reading or writing is closed before the program loses its last
     reference to it, also when the command fails half way. Only the log file, the TeX/HTML output file, the list file and
     SUBMIT command files may stay open between commands; another command does not replace an open log or LaTeX file, and
     those are marked as open exactly while they are.''',
     'inputs histories fault_sequences', 'every command sequence and every failing file operation',
     '''A leaked handle shows only after hundreds of commands or as unflushed output on an error path; tests run short
     scripts on the success path.''',
     'src/mmcmds.c src/mmcmdl.c src/mmvstr.c src/mminou.c src/mmwtex.c src/metamath.c src/mmpars.c src/mmdata.c',
     [['open/close pairs', 'all callers of fopen and fSafeOpen']],
     'resource typestate over the CFG with interprocedural summaries',
     IR + '''Every open call is one obligation. Functions returning or closing a handle are summarised; session-owned globals are a
     fixed list of four.''')

prop('C10', 'A file that could not be opened is never used',
     '''If opening a file fails, the program reports the problem or gives up the operation; no path reads from, writes to or
     closes the missing file.''',
     'inputs fault_sequences', 'every command and every point at which an open can fail',
     '''Tests never make an open fail (missing directories, permissions, full disks).''',
     'src/mmcmds.c src/mmcmdl.c src/mminou.c src/mmwtex.c src/metamath.c src/mmpars.c src/mmdata.c',
     [['NULL tests after opening', 'all callers of fopen and fSafeOpen']],
     'nullness typestate over the CFG with interprocedural summaries',
     IR + 'Every open call is one obligation; a use on a path without a non-NULL test is a violation.')

prop('C12', 'Output captured into a string is always switched back to the screen',
     '''Whenever a command temporarily captures the program's output in a string, output goes to the screen
     and log again when the command ends or waits for input, on every path including errors, and a routine leaves the output
     direction as it found it.''',
     'inputs histories', 'every command, every path through it, every nesting of capturing routines',
     '''A lost restore silences all later output, only on the path that forgot it; tests exercise a few HTML commands.''',
     'src/mmcmds.c src/mmwtex.c src/metamath.c src/mmword.c src/mminou.c src/mmpars.c',
     [['capture switch', 'every function that sets the output-to-string flag']],
     'context-sensitive interprocedural typestate over the CFG',
     IR + 'Each (function, entry direction, flag arguments) context is one obligation.')

prop('C13', 'No temporary string is used after it has been released',
     '''A string expression result that is only valid until the next string assignment is never read after an operation
     that releases such temporaries, neither directly nor by passing it to a routine that assigns strings before it has
     finished reading its argument.''',
     'inputs', 'every call of a string function in every command',
     '''Use after release yields garbage only when the freed block has been reused; the tests see the usual allocator layout.''',
     'src/mmvstr.c src/mmdata.c src/mmwtex.c src/mmcmds.c src/metamath.c src/mmcmdl.c src/mmpars.c src/mmpfas.c src/mmword.c',
     [['temporary string stack', 'let, cat, makeTempAlloc, nmbrLet, pntrLet']],
     'lifetime (typestate) analysis with interprocedural summaries of releasing and stable-argument functions',
     IR + '''Each producer call of a temporary is one obligation; parameters that need strings that survive a release are inferred
     from the function bodies.''')

prop('C19', 'Discouraged statements are used or replaced only on request',
     '''Unless OVERRIDE is given or SET DISCOURAGEMENT is OFF: ASSIGN, REPLACE, IMPROVE and MINIMIZE_WITH never put a statement into the
     proof in progress whose description contains the tag "(New usage is discouraged.)", and PROVE and SAVE NEW_PROOF refuse to work on or overwrite
     a proof whose description contains "(Proof modification is discouraged.)", however the tag is broken across lines.''',
     'inputs histories', 'every database, every statement, every path through those commands and the searches they start',
     '''The tests contain no discouraged statement at all; the restriction has to hold at each of the places that pick a statement, including nested searches.''',
     'src/metamath.c src/mmpfas.c src/mmdata.c', [['commands', 'command'], ['searches', 'proveFloating, proveByReplacement, replaceStatement'],
                                     ['recognising the tags', 'getMarkupFlag']],
     'path-sensitive typestate over one round of the command loop and over each search; flow of the override flag',
     IR + '''At every use of a statement the path must have established that its usage is not discouraged (same statement, right tag) or that the override is
     on; each search must be handed nothing but the override; the tag answers are traced to the text searched for. MATCH does not check the tag and is outside the statement, as
     are the syntax proofs MINIMIZE_WITH fills in after its own check.''')

prop('C20', 'Unsaved work is never given up without a warning',
     '''After any command that may have changed the proof in progress, including UNDO and REDO, the proof counts as changed until it is saved; after a
     command that changed the stored source it counts as changed until the whole database is written. While it does, leaving the
     Proof Assistant, erasing the database or ending the program first shows the warning and goes on only with the user's consent or
     FORCE. UNDO back to the first proof counts as unchanged only if nothing was saved meanwhile.''',
     'inputs histories', 'every command sequence, every path through each command',
     '''Lost work depends on which of dozens of commands ran before leaving and which way they ended; tests leave with FORCE.''',
     'src/metamath.c src/mmpfas.c', [['change marks, warnings, saving', 'command'], ['changes of the proof', 'autoUnify, interactiveMatch, unifyStep'],
                                     ['status of the undo history', 'processUndoStack']],
     'effect analysis (who may change the proof) and typestate over one round of the command loop',
     IR + '''All functions that may write the proof in progress are found through call and parameter summaries; each call of one in the command loop must
     reach the end of the command with the mark set, or be reverted, or be known to have changed nothing (its own change flag). Assumed: the
     automatic unification run twice without a change between does nothing the second time.''')

prop('C21', 'Every change of the proof in progress can be undone',
     '''Each command that may have changed the proof in progress ends with that very state on the undo stack, after its last change, unless nothing
     was changed. UNDO restores the previous state and REDO the next one, keeping the other states; they do nothing only at the
     ends. A new command discards the undone states; a full stack gives up its oldest state only and remembers that; a state is saved and
     restored with all its parts for all steps.''',
     'inputs histories', 'every sequence of Proof Assistant commands, UNDO and REDO, every stack size',
     '''The history is a data structure driven by every command; tests contain one or two UNDO sequences.''',
     'src/metamath.c src/mmpfas.c', [['saving after each change', 'command'], ['the stack', 'processUndoStack'],
                                     ['copying states', 'copyProofStruct, deallocProofStruct']],
     'effect analysis with typestate over the command loop; symbolic-offset dataflow per stack action',
     IR + '''Same effect analysis as for C20 with the push as the recording event; the stack function is followed once per action with its counters as
     entry value plus constant. Of the work-variable counter only that it is set again when a proof is brought back.''')

prop('C22', 'MINIMIZE_WITH keeps only allowed, valid and smaller replacements',
     '''MINIMIZE_WITH tries only $a and $p statements that precede the theorem, match the label list, are not excluded by EXCEPT or FORBID and are not in
     another mathbox unless INCLUDE_MATHBOXES. A trial is kept only if the compressed proof has not become larger (unless MAY_GROW), no statement of the
     new proof leads to a forbidden one, it brings no axiom the proof did not depend on unless ALLOW_NEW_AXIOMS matches it and NO_NEW_AXIOMS_FROM does
     not, and the resulting proof has no error or $d violation. Otherwise the proof is put back exactly as it was.''',
     'inputs histories', 'every proof, every list of candidates, every combination of the qualifiers, every outcome of a trial',
     '''The loop has some twenty exits over two passes with a nested axiom search; the tests run it on a few tiny proofs that never take most of them.''',
     'src/metamath.c src/mmpfas.c', [['the loop over candidates', 'command'], ['one replacement', 'minimizeProof']],
     'path-sensitive typestate over one round of the candidate loop with canonicalised conditions',
     IR + '''Every path that ends in keeping a trial has to have passed the refusing branch of each test; the paths that refuse must have copied the saved proof back. The tests are
     recognised by what they read (qualifier flags, saved sizes, marks of the axiom search, captured output of the proof check). Whether the minimum is reached
     is not claimed.''')

prop('C23', 'Only SAVE PROOF, SAVE NEW_PROOF and reformatting change the database',
     '''Once read, the text, type and proof of a statement are changed only by SAVE PROOF, SAVE NEW_PROOF and WRITE SOURCE with FORMAT or REWRAP. Where checking, tracing,
     displaying or minimizing needs an end mark in the text or a trial proof or another type in a statement, the original is put back on every path, before anything is
     reported about the text, another place is changed or the routine or command ends. A replaced section is stored with the length of the new text and the mark that it
     was changed, its memory is then owned by the statement alone, and only text marked that way is ever freed.''',
     'inputs histories', 'every command on every database, every early way out of a routine that has changed something temporarily',
     '''The damage of a change that is not undone shows only in a later command (a shorter proof, a statement of the wrong type, a crash on ERASE); the tests never run the error
     branches in question and then look at the database again.''',
     'src/mmpars.c src/mmcmds.c src/mmwtex.c src/metamath.c', [['end marks in the text', 'parseProof, parseCompressedProof, traceUsage, readTexDefs, writeExtractedSource'],
                                                              ['trial proofs and types', 'command, typeStatement'], ['replacing a section', 'command, outputStatement, eraseSource']],
     'effect analysis (who writes the statement table and the source text) and save/restore typestate on the CFG',
     IR + '''Every store whose address derives from the statement table, the source text or the pointers into it is one obligation: it restores what was loaded from the same place, is part of a
     command that may change the database, or is followed by the restoring store on every path. Addresses are compared structurally.''')

prop('C18', 'No access before the start of a string or beyond a table that fills up',
     '''A character at a fixed distance before the end of a string, or before a place found in it, is looked at or overwritten only where the routine has found the string long enough, or the place far
     enough from its start. A table of fixed size (open command files, temporary strings, lines and operands being collected) is written at an index that grows by one only after the index was compared with
     the size of the table. A number put together digit by digit is compared with a limit before it is multiplied again.''',
     'inputs', 'every string the user or a file supplies, every nesting and every number of digits',
     '''An empty line, an empty name, a line that starts with a NUL, a character found at the very first position, the eleventh nested SUBMIT or a label number of twenty digits is one input in a great many, and
     reading or writing one byte outside seldom shows at once.''',
     'src/mminou.c src/mmvstr.c src/metamath.c src/mmwtex.c src/mmpars.c src/mmdata.c src/mmword.c src/mmcmds.c',
     [['ends of strings', 'cmdInput, linput, command, errorMessage, outputStatement, printTexComment'], ['tables', 'cat, nmbrCat, pntrCat, pushTempAlloc, command, revise'], ['numbers', 'parseCompressedProof']],
     'value-range dataflow (lower bounds of lengths and positions, upper bounds of growing indexes) on the CFG',
     IR + '''Each access at strlen(s) - k or instr(...) - k and each write to a fixed-size table at a growing index is one obligation: on every path from the place where the length, position or counter is found to the
     access, the comparisons crossed must imply the limit. What the comparisons say about a string in another way, and strings that another routine has made, count as unknown and give no alarm.''')

prop('C24', 'A step or statement the user names is checked before it is used',
     '''Where a command or a search pattern takes a step number, a statement number or a label, it selects an entry of the proof or of the statement table only after the answer "no such" and numbers
     below the first or beyond the last entry were turned away. The search for a step or statement yields an entry that qualifies (allowed type, given name, before the limit, a $e or $f only of the
     statement being proved, an unknown essential step when counted from the first or last), the only one, or failure. ASSIGN and REPLACE take only a statement before the one being proved, PROVE only a $p,
     and ASSIGN and MATCH STEP only a step that is unknown.''',
     'inputs', 'every number, label, pattern and state of the proof in progress',
     '''A step 0, a step beyond the end, a label that is not there or a pattern with two matches is one answer among very many at each of about twenty prompts; a statement that comes after the one being proved
     gives a circular proof that only shows when the file is read again.''',
     'src/metamath.c src/mmcmds.c src/mmdata.c', [['numbers and labels in commands', 'command'], ['searching', 'getStatementNum, getStepNum, lookupLabel'], ['patterns', 'matches']],
     'value-range dataflow from each source of a number to each use as an index, and case exploration of the search loops',
     IR + '''From each call of val(), getStepNum(), getStatementNum() and lookupLabel() the value is followed along every path of the CFG with its lower and upper limits and the special answers not yet excluded, to
     each index into a table of the program, in the function itself or a called one. The loops of the two searches are explored once per class of entry that does not qualify, with everything else left open.''')

prop('C31', 'Traces through proofs leave nothing out',
     '''SHOW TRACE_BACK, SHOW PROOF /STATEMENT_SUMMARY and whatever else traces a proof back find every $a and $p that the proof refers to and, except for the summary, every one that the proofs of those refer to
     (only essential steps with /ESSENTIAL, only statements that lead to one of the /TO list, only a first occurrence with /TREE); each proof with unknown steps among them is listed as not proved. SHOW USAGE finds every
     later proof that refers to the statement and, with /RECURSIVE, to one that was found. Each statement that matches the label list of the command is traced, and each statement found is shown unless
     /AXIOMS or /MATCH excludes it; proofs with an error count as empty, incomplete ones do not.''',
     'inputs', 'every database, every proof and every combination of qualifiers',
     '''Which axioms a theorem rests on is what people use the program for; an entry that is left out (the last step, a label that occurs first in a branch already cut, a list that grew while it was
     scanned) shows in no small example.''',
     'src/mmcmds.c src/metamath.c', [['tracing back', 'traceProofWork, traceProof, traceProofTreeRec, proofStmtSumm'], ['usage', 'traceUsage'], ['commands', 'command (SHOW TRACE_BACK, SHOW USAGE)']],
     'path-sensitive typestate over one round of each scanning loop, and linear bounds of each loop',
     IR + '''For each loop over steps, over the list of statements to be traced, over proofs and over results, one round is followed along every path: it marks, lists, traces or shows its entry, or crosses one of the admissible
     reasons not to; the list grows by what was put on it; the loop starts at the first and ends at the last entry and is not left before. Bounds in a form that is not linear in a known quantity are not judged.''')

prop('C34', 'An extracted database has everything the extracted statements need',
     '''WRITE SOURCE /EXTRACT writes, each with its label, keyword, symbols and (for $p) proof, all $a and $p statements that match the list, all that their proofs refer to, and for each $a and $p written
     every ${ and $} around it, its mandatory and optional hypotheses and $d statements, and the $c and $v statements of all symbols of the $a, $p, $e and $f statements written.''',
     'inputs', 'every database and every list of labels',
     '''A $d or $f that only a proof needs, a symbol that only a hypothesis uses, or a scope two levels up is easily lost, and the extract then no longer verifies, or proves something else.''',
     'src/mmcmds.c', [['extracting', 'writeExtractedSource']],
     'path-sensitive typestate over one round of each marking loop, linear bounds and order of the loops',
     IR + '''For each list a statement depends on, the loop over the statements reaches it for each needed statement of the kinds that have it, the loop over the list marks each entry and covers the list, and it precedes
     the loops that have to follow up what it marks; one round of the writing loop is followed along each path for the parts written. Loops in another form than a scan inside a scan are not judged; comments, headings,
     the $t comment and the declarations of symbols that are not needed are not covered.''')

prop('C35', 'WRITE SOURCE writes the whole database',
     '''Without /EXTRACT, /FORMAT and /REWRAP, WRITE SOURCE writes for every statement in order the text before the keyword, the keyword, its symbols, for $p "$=" and the proof, and "$.", then the text after the last
     statement; with /SPLIT each included section goes to its own file, with an inclusion command in its place and the text around it unchanged.''',
     'inputs', 'every database, every split into files',
     '''A section that is left out, cut short or written to another file loses part of the database, and the original is replaced.''',
     'src/mmpars.c src/mmcmds.c', [['writing the statements to one text', 'writeSourceToBuffer'], ['splitting it into files', 'writeSplitSource'], ['writing it', 'writeSource']],
     'path-sensitive symbolic positions and lengths of text pieces, per kind of statement and of inclusion',
     IR + '''One round of the loop that copies the sections is followed for each kind of statement: pieces, places, lengths, and where the next statement starts; the loop covers all statements and the final text; the space
     reserved is enough. writeSource() hands the whole text on or shows an error; one round of writeSplitSource() is followed for each kind of inclusion, with the positions found as symbols. What getNextInclusion() finds
     is C25's; that a file written has no write errors is C10's.''')

prop('C36', 'A command for a list of labels deals with every matching statement',
     '''VERIFY PROOF, VERIFY MARKUP, SHOW LABELS, SHOW STATEMENT, SHOW PROOF, SAVE PROOF, SHOW TRACE_BACK, SHOW USAGE, SEARCH and EXPAND compare the label of every $p (and, for those not about proofs, $a) with
     the list the user gave, from the first statement to the last (EXPAND: to the one before the theorem being proved); neither a label that does not match, nor one that does, nor what was found in one statement
     ends the scan early. VERIFY PROOF parses each matching proof and, unless /SYNTAX_ONLY is given, verifies each that has no errors.''',
     'inputs', 'every database and every list of labels',
     '''The tests use databases in which the interesting statement is in the middle; a scan that misses the first or last statement or stops at a certain one still passes, and "All proofs were verified" is then not true.''',
     'src/metamath.c src/mmcmds.c src/mmwtex.c', [['scans of the statements', 'command, verifyMarkup, writeBibliography'], ['verifying', 'verifyProofs']],
     'linear bounds of scan loops; control-dependence of each way out and each skip on the facts about the running statement',
     IR + '''Every loop in which the label of the running statement is given to matchesList() is one instance: its bounds, the branch conditions that pass a statement over before the comparison for $p and for $a, the
     conditions that leave the loop, and for the commands whose action is a call, that the call is made for each match. Ways out after the user has quit the output or for a qualifier-independent flag are accepted; what matchesList() matches and
     MINIMIZE_WITH's scan (which runs in either direction) are not covered.''')

prop('C37', 'The parts of the proof in progress stay in step',
     '''When a subproof is put in place of an unknown step of the proof in progress (ASSIGN, REPLACE, IMPROVE, MINIMIZE_WITH) or taken back to an unknown step (DELETE), every other step keeps its own target, source
     and user-assigned formula, the step concerned keeps its target and its user assignment, and the proof and these three lists get the same length. A subproof taken back loses exactly its own steps and becomes one unknown step
     without a source; one that replaces another goes exactly where the deleted one began, and the steps assigned next are the ones put in.''',
     'histories', 'every proof in progress and every step',
     '''The four lists are separate arrays that are cut and joined with one-based and zero-based positions; a slip by one gives a step its neighbour's formula, which shows only as a wrong unification some commands later.''',
     'src/mmpfas.c src/metamath.c', [['putting in and taking back', 'addSubProof, deleteSubProof, assignStatement'], ['starting and copying', 'initProofStruct, copyProofStruct, deallocProofStruct'],
      ['replacing', 'minimizeProof, command']],
     'symbolic pieces of the rebuilt arrays compared on every path; linear arithmetic on positions',
     IR + '''Each new value of one of the four arrays is a list of pieces with symbolic ends, laid beside the other three at every return; entries emptied in place are compared with the entries that stay; at each place where a
     deletion is followed by an insertion the two positions are compared through the length of the subproof. An array built by an expression that is not recognised is left out.''')

prop('C38', 'What copies a text file line by line loses no line',
     '''The commands that rewrite a text file line by line (TOOLS ADD, TAG, DELETE, CLEAN, SUBSTITUTE, SWAP, INSERT, RIGHT, PARALLEL, COPY; WRITE BIBLIOGRAPHY and WRITE RECENT_ADDITIONS outside the part they replace) write every
     line they read, empty ones too, except lines joined to another one, and keep the line with the end marker; MATCH leaves out only lines that do not match, BREAK and BUILD only what is empty, and BUILD writes what it has begun.
     SORT and REVERSE read and write every line, UNDUPLICATE writes the first of each run of equal lines, DUPLICATE the last of each run of two or more, UNIQUE the lines equal to no neighbour.''',
     'inputs', 'every line of every input file, the last and the empty ones included',
     '''A line lost at the end of a file, at a blank line or where a read-ahead line was given back is not noticed in a file of thousands of lines; it took an empty line behind a rejected match to lose one.''',
     'src/metamath.c src/mmcmds.c', [['the TOOLS commands', 'command'], ['markers', 'command, writeBibliography']],
     'path exploration of one round of each copying loop with the reasons to leave a line out',
     IR + '''Each innermost loop that calls linput() and writes is followed from one reading to the next: what was read is written, joined or excused by a condition on the path that belongs to the command; the end of the loop is
     followed to fclose(). For the sorting commands the conditions on a path (first, last, equal to the neighbour) are laid beside the decision to write. A decision through a value that is not recognised is left out.''')

prop('C39', 'A name is found in a sorted table if and only if it is there',
     '''Statement labels, math symbols, the hypotheses and local labels of a proof and the symbols of the $t comment are looked up by binary search: each search compares whole names in the order by which the table was sorted,
     over all its entries and none besides. Every entry is filled in before the table is sorted, copying and packing the label tables loses no entry and leaves none of the dropped ones behind, and labels added to a table after
     it was sorted are sorted in before they are looked up. What a search returns is used only if something was found.''',
     'inputs', 'every table and every name looked up in it',
     '''A table that is not sorted, or searched one entry short, still finds most names; only the label or symbol in the wrong place is reported as undeclared, or is taken for another one.''',
     'src/mmpars.c src/mmwtex.c src/mmdata.c src/mmcmds.c', [['labels', 'parseLabels, parseStatements, lookupLabel, labelSrchCmp'], ['symbols', 'parseMathDecl, mathSrchCmp'],
      ['hypotheses and local labels', 'parseProof, parseCompressedProof, hypAndLocSrchCmp'], ['typesetting', 'readTexDefs, tokenToTex, texSrchCmp']],
     'pairing of comparators and extents on the IR; typestate of the tables; linear arithmetic on offsets and counts',
     IR + '''Each bsearch() is paired with the qsort() calls of its table, of the table it points into or was copied from; key, comparing function and direction of the two comparators, entry size, first entry and number of entries are
     compared. Stores into a table set its state on every path to a search. A comparator, count or move that is not recognised is left out.''')

prop('C48', 'Numbers and back references of compressed proofs are read as written',
     '''A label of a compressed proof is written as the number of its place in the list of labels, with a last character from a table of letters and further ones before it from a table of digits, and is read back as the same
     place, whatever its number: both sides use the same tables, bases and offsets, what is left of a number after a digit is taken fits that digit, the number of places counted in advance uses the same divisions, and a new
     number starts from 0. The label mark and the unknown step have characters of their own; labels written out come in the order in which they are counted, back references after them. Everywhere in the program an element
     of a proof up to -1000 is a back reference, and stands for the step that makes -1000 with it.''',
     'inputs', 'every number of a label and every step referred to',
     '''Small databases need one letter per label; a second or third digit, the first number of each length and the last letter of a table are where writer and reader can differ, and a wrong label is often still a valid reference.''',
     'src/mmdata.c src/mmpars.c src/mmcmds.c src/mmveri.c', [['writer', 'compressProof'], ['reader', 'parseCompressedProof'], ['back references', 'nmbrSquishProof, nmbrUnsquishProof, parseProof, verifyProof, typeProof']],
     'algebra on the linear forms of the IR: remainders and quotients of the writer against products and sums of the reader',
     IR + '''The writer takes table[(v + c) mod N] and goes on with (v + c) / N; the reader makes n * N + place + k of it. Both are inverse for every number if N is the length of the table and k = -c, so the constants are read from the
     expressions and compared; no value is computed. A number that is split or put together in a form that is not recognised is left out.''')

prop('C15', 'User text is never taken for a format and every directive gets its value',
     '''Whatever a database, file name or command contains is printed as it is: print2, printf, fprintf, sprintf and the fatal error messages only ever get formats that are
     constants of the program, each directive of a format gets a value of the type it names, and every list of strings to be concatenated ends with NULL.''',
     'inputs', 'every message and every text inserted into it',
     '''A label with a percent sign in the one message that forgot "%s", or a wrong value in a rare error message, is never met by a test.''',
     'src/mminou.c src/mmfatl.c src/mmvstr.c src/mmcmds.c src/metamath.c src/mmwtex.c src/mmpars.c src/mmveri.c src/mmpfas.c src/mmcmdl.c src/mmword.c',
     [['printing', 'print2'], ['fatal errors', 'fatalErrorPush, fatalErrorExitAt'], ['lists', 'cat, nmbrCat, pntrCat']],
     'type-level encoding (format attributes checked by the compiler front end) and constant propagation on the IR',
     IR + '''Each call of a formatting or concatenating function is one obligation; functions that pass on a format parameter are followed to their callers. Values of type void * (string
     lists) are accepted for %s; surplus values are not reported.''')

prop('C16', 'Bytes above 127 never become negative table indexes',
     '''Every byte of a source file, proof, comment or command that is used as a table index or handed to a character class function (isspace, isalnum, toupper, ...) is made unsigned before,
     so that text outside ASCII is treated as what it is and never reads or writes outside a table.''',
     'inputs', 'every byte value at every place where text selects a table entry',
     '''The test databases are ASCII.''',
     'src/mmpars.c src/mmwtex.c src/mmvstr.c', [['label and proof characters', 'parseLabels, parseProof, parseCompressedProof'],
                                   ['tokens', 'tokenLen, proofTokenLen, whiteSpaceLen, texDefTokenLen'], ['comment markup', 'printTexComment']],
     'value-origin dataflow on the IR (sign extension of bytes into indexes)',
     IR + '''Each widened byte used as an index or class argument is an obligation: it is zero-extended, or a branch on the path excludes negative values, or it stems from constant text of the program.''')

prop('C11', 'READ reports no errors only if the whole source was read and none was found',
     '''Every error message about the source (errorMessage() with the severity of an error, and sourceError(), rawSourceError(), mathTokenError() which go through it) is shown and
     counted exactly once. READ says "No errors were found." only if the count since the command began is zero after reading and (with VERIFY) checking, and only if a source was
     read. A file that cannot be found, included at whatever depth, or an unterminated "$( Begin $[" makes READ refuse the source: it is marked as read only after
     all stages of the parser ran over a complete text.''',
     'inputs', 'every source file, every nesting of included files, every failure to open one',
     '''A wrong "No errors were found" needs a particular mistake in the database to show; the tests read a few fixed databases.''',
     'src/mminou.c src/mmpars.c src/mmcmds.c src/metamath.c', [['reporting', 'errorMessage, sourceError, rawSourceError, mathTokenError'],
      ['verdict', 'command (READ)'], ['stages', 'readInput'], ['inclusion', 'readInclude, readSourceAndIncludes']],
     'path-sensitive typestate on the error counter and the error flag of inclusion',
     IR + '''All writers of the counter are enumerated; the verdict needs a zero test on a value read after the last call that may report an error. That each kind of mistake is
     detected is C05-C07.''')

prop('C14', 'VERIFY MARKUP finds no errors only if it reported nothing',
     '''VERIFY MARKUP ends with "No errors were found." only if it printed no warning or error on the way: neither itself (labels, reserved file names, math tokens, ax-/ax matching, line
     length, contributor and version dates, discouragement tags, mathboxes) nor in the checks of the typesetting definitions, section headings, comment markup, dates and bibliography, whose
     results it takes into account whatever order they come in. Definitions read earlier are discarded before they are checked, and labels are compared with the
     list of reserved names.''',
     'inputs', 'every database and every combination of diagnostics and qualifiers',
     '''No test runs VERIFY MARKUP.''',
     'src/mmcmds.c src/mmwtex.c src/mmdata.c', [['verdict', 'verifyMarkup'], ['sub-checks', 'readTexDefs, printTexComment, writeBibliography, getSectionHeadings, getContrib'],
      ['missing symbols', 'tokenToTex']],
     'path-sensitive reachability on the IR with branch correlation (from each diagnostic, and from each failing result, to the verdict)',
     IR + '''Each diagnostic (message beginning ?Warning or ?Error, or a source error) is an obligation: the verdict is unreachable after it, or the function returns its failure value. Whether a
     deviation is noticed at all is decided only for the list of reserved names and the rereading of definitions.''')

prop('C25', 'Each included file is brought in exactly once and in its place',
     '''When a database is read, an inclusion "$[ file $]" outside of comments is replaced, the first time its file is named, by the text of that file with the inclusions in it replaced in turn, enclosed in a
     Begin and an End comment naming it, and by a Skip comment any further time; a section between Begin and End comments of one file, as written by WRITE SOURCE, counts as such an inclusion and a Skip comment as a further one,
     and the main file counts as already included. All other text stays unchanged and in order, nothing beyond the end of the text is read, and the text handed on has the length announced. A file that cannot be found, or a Begin
     without End, is an error, and messages name the file and line a place of the text really comes from.''',
     'inputs', 'every tree of files, every order and form of inclusions, also recursive and malformed ones',
     '''Inclusions nest to any depth and come in four forms with comments and each other inside; the tests read a few two-file databases.''',
     'src/mmpars.c src/mminou.c', [['recognising inclusions', 'getNextInclusion'], ['replacing them', 'readInclude'], ['main file', 'readSourceAndIncludes'],
      ['places in messages', 'getFileAndLineNum']],
     'path-by-path abstract interpretation (linear forms over lengths and offsets, symbolic pieces of text) of the loops of the inclusion reader',
     IR + '''Each round of the replacing loop is one path from loop head to loop head; for each kind of inclusion the resulting text, its size, the place where the search goes on, the entry in the table of
     inclusions and the recursive call are compared with what the kind demands, as linear forms. Library functions (strstr, memcpy) are modelled; the file system is not.''')

prop('C26', 'Nothing of an erased database is left over',
     '''Whatever the program remembers about a database from one command to the next is forgotten by ERASE: current and proved statement, counts of statements, dummy variables and mathboxes, extended and mathbox limits,
     the typesetting definitions and every string taken from them, the remembered discouragement and contributor tags, and the symbol tables of the unifier. A routine that remembers a result computed from the database must have it
     reset by ERASE, so that a database read afterwards behaves as it does in a fresh session (the settings made with SET stay).''',
     'histories', 'every sequence of commands before ERASE, every database read after it',
     '''No test uses ERASE; a value left over only shows with a second database that differs from the first in the right place.''',
     'src/mmcmds.c src/metamath.c src/mmwtex.c src/mmdata.c src/mmunif.c', [['forgetting', 'eraseSource, eraseTexDefs, getMarkupFlag, getContrib'], ['command', 'command (ERASE)'],
      ['remembered results', 'assignMathboxInfo, unify, getMarkupFlag, getContrib, readTexDefs']],
     'effect analysis (which variables outlive a command and depend on the database) and must-reset analysis on the CFG',
     IR + '''Found automatically: scalars computed only while they have their first value, and strings and lists that database routines fill and nobody else empties; eight counters are listed by name. Tables that reading a database
     always rebuilds are not obligations, and an ERASE when no statements were read may do nothing.''')

prop('C28', 'Commands that need a database or a proof are refused without one',
     '''Every command that works on a database (MARKUP, MIDI, OPEN TEX, PROVE, SAVE PROOF, SEARCH, SHOW LABELS/PROOF/SOURCE/STATEMENT/TRACE_BACK/USAGE, VERIFY, WRITE) is refused with a message as long as none has
     been read; READ is refused when one has been read already. The Proof Assistant commands (ASSIGN ... INITIALIZE, SHOW and SAVE NEW_PROOF) are accepted only while a proof is in
     progress, which only PROVE starts, and READ, ERASE and PROVE only while none is.''',
     'inputs histories', 'every command in every state of the session',
     '''Tests always read a database first and never mix the modes.''',
     'src/mmcmdl.c src/metamath.c', [['command line', 'processCommandLine'], ['READ, PROVE', 'command']],
     'path-sensitive must-pass analysis per command on the CFG and evaluation of the constant word lists',
     IR + '''One obligation per command: each path of the command line parser on which only this command is recognised and that ends in acceptance passes the test of the state. The commands concerned are listed in the
     rule; what the commands do afterwards is not part of it.''')

prop('C29', 'Every command and qualifier that is accepted is carried out',
     '''Each command the command line accepts has a branch in the interpreter. Each qualifier it accepts for a command is looked up by that command under the same name and the answer makes a difference (apart
     from a few documented as obsolete or default), and no command looks for a qualifier that cannot be given. A value is asked for exactly where the command reads one, the value read is the word right behind the qualifier, it
     is read only if the qualifier is there, and a word a command takes by its position has been asked for. What a qualifier switches on for one command is off for the next that comes without it (except HTML, ALT_HTML and NO_HEADER).''',
     'inputs histories', 'every command with every combination of its qualifiers',
     '''Some 250 pairs of command and qualifier are spread over two long functions that must agree; the tests use about ten of them.''',
     'src/mmcmdl.c src/metamath.c', [['grammar', 'processCommandLine'], ['interpretation', 'command']],
     'comparison of two control-flow graphs sliced by command, value-origin and liveness analysis',
     IR + '''For each command the parts of the parser and of the interpreter that run for it are found by following the answers of cmdMatches(); word lists are evaluated as constants. That a qualifier does the right
     thing is not decided, only that it is looked up and can influence something.''')

prop('C33', 'Text captured for a file is written there once and none of it is lost',
     '''What a command prints while the output is captured (in g_printString, for an HTML or LaTeX page, a list or a statement of the database) is not thrown away before it was written to the file or used otherwise, is
     not written a second time, and nothing is captured behind text that has been written already. When a command that does not produce HTML is done, no captured text is left over for the next one.''',
     'inputs histories', 'every path of every command that captures output',
     '''Some sixteen routines hand the capture over to each other; which text a page loses depends on the page kind and on what the statement has.''',
     'src/metamath.c src/mmcmds.c src/mmwtex.c src/mmpars.c', [['capture', 'typeStatement, printTexHeader, printTexComment, printTexLongMath, printTexTrailer, writeTheoremList, typeProof, proofStmtSumm, outputStatement, command'], ['appending', 'print2']],
     'interprocedural typestate analysis on the control-flow graphs, per context of capture switch, HTML mode and flag arguments',
     IR + '''Each routine is analysed once per state it can be entered in, with the values of the flag arguments that decide about capturing; values saved and restored are followed. That the text itself is right is not decided.''')

prop('C32', 'Whatever is shown reaches screen, log file and capture alike',
     '''Everything a command shows goes through one routine (print2), except when the program is about to abort or a debug switch is on. Unless the user has quit at the scroll prompt, that routine puts each text exactly once on
     the screen (unless captured or silenced by SUBMIT /SILENT), into the log file (if one is open and the text is not captured) and into the captured text (if captured). Each answer typed by the user is put into the log with its
     question, each line of a SUBMIT file is shown, and the end of a SUBMIT file closes it and restores the silence of the place it was called from.''',
     'inputs histories', 'every message, every combination of log, capture and nested SUBMIT files',
     '''A message printed past print2 looks right on the screen; it is missing only in a log or shows up in a silent run.''',
     'src/mminou.c src/metamath.c', [['output', 'print2'], ['input and SUBMIT files', 'cmdInput1'], ['SUBMIT', 'command'], ['messages', 'all callers of printf']],
     'path exploration of the output routine for each value of its switches, effect analysis of all terminal writes',
     IR + '''All calls that write to stdout are enumerated; print2() and cmdInput1() are explored for each combination of the switches with the switch values known exactly and everything else unknown.''')

prop('C17', 'The end of the input never makes the program read or ask for ever',
     '''When the keyboard input or a file has come to its end, no command reads or asks on and on: a question is not repeated without end, a scroll prompt goes on by itself, and each loop over the lines of a file is left.
     At the end of the keyboard input each question that begins with "Do" is answered "Y" and everything else "EXIT", so that EXIT leaves the Text Tools, the Proof Assistant and the program in turn even with unsaved work. A loop that
     goes on by a number the user gave is run only if that number is positive.''',
     'inputs histories', 'every place that reads, every point at which the input can end',
     '''Test scripts end with EXIT at the main prompt; the input can end at any of some forty questions and reads, also of an empty file.''',
     'src/mminou.c src/mmpfas.c src/metamath.c src/mmvstr.c src/mmcmdl.c src/mmdata.c src/mmword.c', [['input', 'cmdInput, cmdInput1, linput'], ['scrolling', 'print2'], ['questions', 'interactiveMatch, interactiveUnify, getFullArg, bug'],
      ['leaving', 'command (EXIT)'], ['text tools', 'command, revise']],
     'path exploration from every read that meets the end of its input (constants propagated along the path)',
     IR + '''Each read is an obligation: with every further read meeting the end as well, the paths in the loops around it must not come back to it or go round. Loops ended by a counter are
     accepted; loops that span several routines and loops that do not read are not covered.''')


# ---- not applicable ------------------------------------------------------------------------------------------------

na('C40', 'Unification finds the most general unifier whenever there is one',
   '''ASSIGN, UNIFY, LET and MATCH offer a unifier exactly when the two schemes have one (within the trial limit the user set), and the one offered makes them identical.''',
   'inputs', 'every pair of schemes', 'The search space is unbounded; tests contain a handful of unifications.',
   'src/mmunif.c', [['unification', 'unify, oneDirUnif, uniqueUnif']],
   '''The result depends on symbol strings of unbounded length that a backtracking search with an explicit stack rewrites in place; soundness and completeness are equalities between those strings, which no syntactic,
   flow or type rule bounds. (What a proof finally has to satisfy is checked independently by C02 and C03.)''')

na('C41', 'Converting a proof between formats keeps its meaning',
   '''SAVE PROOF in normal, packed and compressed format writes a proof which, read again, has the same steps.''',
   'inputs', 'every proof and every pair of formats', 'Encodings depend on the number of labels and repeated subproofs.',
   'src/mmpars.c src/mmcmds.c src/mmdata.c', [['formats', 'compressProof, parseCompressedProof, nmbrSquishProof, nmbrUnsquishProof']],
   '''The property equates the results of an encoder and a decoder (base 20/5 numbers, back references by position) over sequences of arbitrary length; that is a proof about arithmetic on run-time values, not a
   property of the flow of the source. C48 decides that the two sides use the same coding, but not that their sequences agree; C04 decides the part that does not need it: what a decoded reference may point to.''')

na('C42', 'A minimized proof is as short as the given statements allow',
   '''MINIMIZE_WITH finds a shorter proof whenever a single replacement by one of the statements tried makes it shorter.''',
   'inputs', 'every proof and statement', 'It depends on the unifications that succeed.',
   'src/metamath.c src/mmpfas.c', [['minimizing', 'minimizeProof']],
   '''It reduces to the completeness of unification (C40). That what is kept is allowed, valid and shorter is decided by C22.''')

na('C43', 'Wildcards and searches select exactly what matches',
   '''Label lists, SEARCH patterns and the wildcards *, ?, $*, $? select exactly the statements they describe.''',
   'inputs', 'every pattern and text', 'Patterns and texts are unbounded.',
   'src/mmcmds.c src/mmdata.c', [['matching', 'matches, matchesList, searchStatements']],
   '''The matcher is a recursive comparison whose correctness is an inductive statement about two strings of any length, with backtracking over the position of each wildcard; a rule on its control flow would restate the code.''')

na('C44', 'Generated web pages and LaTeX are well formed and show what the source says',
   '''SHOW STATEMENT /HTML, WRITE THEOREM_LIST and OPEN TEX produce well-formed documents whose formulas are those of the database.''',
   'inputs', 'every database and every $t comment', 'The document depends on definitions in the database.',
   'src/mmwtex.c', [['typesetting', 'printTexComment, tokenToTex, getTexLongMath']],
   '''Tags come from $t definitions of the database and from comment markup, so nesting depends on user text; balance of the tags is a property of strings put together at run time. C33 decides that captured pieces reach the page once.''')

na('C45', 'Writing a database back without changes reproduces it',
   '''WRITE SOURCE without qualifier writes the text that was read, byte for byte, and with /REWRAP a text that differs in white space only.''',
   'inputs', 'every database', 'Texts are unbounded and every special form of comment and heading matters.',
   'src/mmpars.c src/mmcmds.c', [['writing', 'outputSource, writeSourceToBuffer, rewrapComment']],
   '''Byte identity of output with input is a relation between run-time strings; the sections are cut and joined by computed lengths. The cutting is decided by C07, the assembling with inclusions by C25, that nothing else changes the
   text by C23; their composition into identity, and rewrapping by line width, is not within reach of a static rule.''')

na('C46', 'Memory that is no longer needed is given back',
   '''A session of any length needs no more memory than its database, its proof and its undo stack.''',
   'histories', 'every sequence of commands', 'A leak shows only after many commands.',
   'src/mmvstr.c src/mmdata.c', [['allocation', 'let, nmbrLet, pntrLet, freeTempAlloc']],
   '''Strings are owned by variables of every kind (locals, globals, elements of tables indexed at run time) and released by assigning to them; an ownership analysis without annotations reports mostly tables that are meant to live on.
   Known leaks are listed in DESIGN.md; use after release is decided by C13, files by C09.''')

na('C47', 'Commands finish within a time that grows moderately with the database',
   '''Reading, verifying and tracing take time about proportional to the size of the database.''',
   'inputs', 'every database', 'Run time is not something an expected output shows.',
   'src/mmpars.c src/mmveri.c src/mmcmds.c', [['reading', 'parseStatements'], ['verifying', 'verifyProof']],
   '''Loop bounds are run-time quantities and the unifier is exponential by design, limited by a setting of the user. Endless loops at the end of the input are decided by C17.''')
