"""Deciding procedures by name (see catalogue.py)."""
from .vprops import *
from . import absent, effects, kinds, bindings, conts, parse, refs, lookups, documents, cycles, pointers, texts, loading as _loading, owner, uris as _uris

spec_logic = spec_check(LOGIC)
spec_arrays = spec_check(ARRAYS)
spec_objects = spec_check(OBJECTS)
_equality = spec_check(EQUAL)


def equality(res, tier):
    _equality(res, tier)
    kinds.equality(res, tier)


def conversions(res, tier):
    kinds.conversions(res, tier)
    kinds.traversal(res, tier)


def library_values(res, tier):
    bindings.values(res, tier)
    conts.containers(res, tier)


spec_type = spec_check(['TypeConstraint'])
spec_mult = spec_check(MULT)


def mapping(res, tier):
    parse.mapping(res, tier)


def origins(res, tier):
    parse.origins(res, tier)
    refs.references(res, tier)
    lookups.lookups(res, tier)


def fetched(res, tier):
    documents.documents(res, tier)


def termination(res, tier):
    cycles.termination(res, tier)


def pointer(res, tier):
    pointers.pointers(res, tier)


_texts = texts.texts


def texts(res, tier):
    _texts(res, tier)


def loading(res, tier):
    _loading.loading(res, tier)


def owners(res, tier):
    owner.owners(res, tier)


def unchanged(res, tier):
    effects.unchanged(res, tier)


def uris(res, tier):
    _uris.uris(res, tier)


def parse_no_absent(res, tier):
    absent.parsing(res, tier)
