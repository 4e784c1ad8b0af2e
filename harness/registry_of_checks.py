from . import p_exec as E
from . import p_files as F
from . import p_prog as P
from . import p_reg as R
from . import p_store as S
from . import p_trace as T

CHECKS = {
    "C01": [E.c01], "C02": [E.c02], "C03": [R.c03, R.c03, F.files], "C04": [E.c04], "C05": [R.c05, R.c05, F.files], "C06": [E.c06], "C07": [E.c07],
    "C08": [R.c08, R.c08, F.files], "C09": [R.c09], "C10": [E.c10], "C11": [S.c11], "C12": [S.c12], "C13": [R.c13], "C14": [R.c14],
    "C15": [E.c15], "C16": [E.c16], "C17": [E.c17], "C18": [R.c18, R.c18, F.files], "C19": [T.c19], "C20": [P.c20, P.c20, P.c20, P.c20_run],
}
