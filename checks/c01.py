"""C01: marshal followed by unmarshal gives the value back."""
import json

import marsh

from vlib import containers
from vlib import types as t
from vlib.core import Sub

PROPERTY = 'C01'
RULE = (
    'Cases are a generated type (scalars, containers, unions, enums, dataclasses, named '
    'tuples, typed dicts and nestings of these) and an element that determines a value of '
    'the type. Only values for which the documented union order does not make the '
    'marshaled form ambiguous are in the domain. Non-trivial: the type has at least two '
    'different kinds of nodes.'
)


def _value(case, ctx):
    spec, element = case
    model = t.Model(spec)
    try:
        status, form = model.ref(element)
        if status != 'ok':
            ctx.reject()
        plain = t.marshaled(form, model.registry)
        if model.ref(plain) != ('ok', form):
            # e.g. '1' in Union[int, str]
            ctx.label('ambiguous')
            ctx.reject()
    except t.Unspecified:
        ctx.reject()
    ctx.label(*(f'type {k}' for k in model.kinds()))
    ctx.nontrivial(len(model.kinds()) > 1)
    return model, form, model.realize(form)


def _ordered(fn):
    def run(case, ctx):
        # the order of the keys of a typed dict is not specified
        with t.ordered('typeddict' not in repr(case[0])):
            return fn(case, ctx)
    return run


def roundtrip(case, ctx):
    spec, _ = case
    model, form, value = _value(case, ctx)
    element = marsh.marshal(value)
    again = marsh.unmarshal(model.type, element)
    got = model.neutral(again)
    ctx.check(
        got == form,
        f'{value!r} of {model.type} was marshaled to {element!r} and unmarshaled to {again!r}: {got!r} != {form!r}',
    )
    if not (model.kinds() & {'any'} or 'None,' in repr(spec)):
        # the JSON text of a tuple is that of a list, which Any would give
        json_text(model, form, value, element, ctx)
    # and once more: the element is stable
    twice = marsh.marshal(again)
    ctx.check(
        t.element_key(twice, model, form) == t.element_key(element, model, form),
        f'{value!r}: marshaled to {element!r} first and to {twice!r} after the round trip',
    )


def json_text(model, form, value, element, ctx):
    text = json.dumps(element)
    again_json = model.neutral(marsh.unmarshal(model.type, json.loads(text)))
    ctx.check(
        again_json == form,
        f'{value!r} of {model.type} was marshaled to the JSON text {text} and unmarshaled to {again_json!r}, not {form!r}',
    )


def cast(case, ctx):
    model, form, value = _value(case, ctx)
    again = marsh.cast(model.type, value)
    got = model.neutral(again)
    ctx.check(got == form, f'{value!r} cast to {model.type} is {again!r}: {got!r} != {form!r}')


def _exact():
    return t.typed_elements(t.specs(2, t.MARSHALABLE), mutate=False)


SUBS = [
    Sub('roundtrip', _exact, _ordered(roundtrip), 4500, 150000),
    Sub('cast', _exact, _ordered(cast), 1500, 50000),
    Sub('containers', lambda: t.typed_elements(containers.specs(t.specs(1, t.MARSHALABLE)), mutate=False), _ordered(roundtrip), 1500, 50000),
]
