"""Property id -> (rule function, level)."""
import capture
import diag
import discourage
import disjoint
import bounds
import choice
import closure
import every
import parts
import lines
import search
import coding
import extraction
import eof
import erase
import files
import grammar
import include
import lex
import minimize
import output
import pa
import redirect
import refs
import safety
import source
import stmts
import strmem
import text
import verify
import writing

CHECKS = {
    'C01': (verify.check_status, 'other'),
    'C02': (verify.check_accept, 'other'),
    'C03': (disjoint.check, 'other'),
    'C04': (refs.check, 'other'),
    'C05': (stmts.check_form, 'other'),
    'C06': (stmts.check_frame, 'other'),
    'C07': (lex.check, 'other'),
    'C08': (safety.check, 'other'),
    'C09': (files.check_close, 'other'),
    'C10': (files.check_null, 'other'),
    'C11': (diag.check_read, 'other'),
    'C12': (redirect.check, 'other'),
    'C13': (strmem.check_temps, 'other'),
    'C14': (diag.check_markup, 'other'),
    'C15': (text.check_format, 'other'),
    'C16': (text.check_bytes, 'other'),
    'C17': (eof.check, 'other'),
    'C19': (discourage.check, 'other'),
    'C20': (pa.check_announce, 'other'),
    'C21': (pa.check_undo, 'other'),
    'C22': (minimize.check, 'other'),
    'C23': (source.check, 'other'),
    'C18': (bounds.check, 'other'),
    'C31': (closure.check, 'other'),
    'C34': (extraction.check, 'other'),
    'C35': (writing.check, 'other'),
    'C36': (every.check, 'other'),
    'C37': (parts.check, 'other'),
    'C38': (lines.check, 'other'),
    'C39': (search.check, 'other'),
    'C48': (coding.check, 'other'),
    'C24': (choice.check, 'other'),
    'C25': (include.check, 'other'),
    'C28': (grammar.check_state, 'other'),
    'C29': (grammar.check, 'other'),
    'C32': (output.check, 'other'),
    'C33': (capture.check, 'other'),
    'C26': (erase.check, 'other'),
}
