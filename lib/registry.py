import accessors
import effects
import grouping
import language
import lexing
import memory
import outcome
import printed
import printing
import represent
import result
import termination

CHECKS = {
    "C01": [memory.c01],
    "C02": [memory.c02],
    "C03": [memory.c03],
    "C04": [represent.c04],
    "C05": [represent.c05],
    "C06": [represent.c06],
    "C07": [represent.c07],
    "C08": [grouping.c08],
    "C09": [lexing.c09],
    "C10": [represent.c10],
    "C11": [outcome.c11],
    "C12": [outcome.c12],
    "C13": [result.c13],
    "C14": [effects.c14],
    "C15": [printing.c15],
    "C16": [outcome.c16],
    "C17": [printed.c17],
    "C18": [accessors.c18],
    "C19": [represent.c19],
    "C20": [represent.c20],
    "C23": [language.c23],
    "C24": [termination.c24],
}
