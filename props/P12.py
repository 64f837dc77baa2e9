"""P12: XML."""

import xml.dom.minidom
import xml.sax.saxutils

from vmon import core, gen, model
from vmon.build import build, describe_spec, scheme
from vmon.core import attempt, same
from props.common import canonical_values, outbound, reads_back, xml_gen, xml_text

Xml = scheme.formats.Xml


def case(ctx, rng, index):
    g = xml_gen(rng, p_poly=0.3, p_default=0.15, p_order=0.1, p_bounds=0.4, p_nonnull=0.15, p_ignored=0.1)
    spec = g.spec(rng.choice([0, 1, 2, 3]))
    field = build(spec)
    detail = {'schema': describe_spec(spec)}
    for value in canonical_values(rng, spec, 6, texts=xml_text, null=0.2):
        try:
            form = outbound(spec, value)
        except model.Undecided:
            continue
        if not reads_back(spec, value):
            # ignored values become nulls, which ignore_null drops
            ctx.count('ambiguous_values')
            continue
        for preamble in (True, False):
            text = attempt(field.serialize, value, 'xml', preamble=preamble)
            ctx.check(text.kind == 'ok' and isinstance(text.value, str), 'serializing to XML failed', value=value,
                observed=text, **detail)
            ctx.check(text.value.startswith('<?xml') == preamble, 'the preamble is not as asked', text=text.value)
            document = attempt(xml.dom.minidom.parseString, text.value.encode('utf-8'))
            ctx.check(document.kind == 'ok', 'the document is not well-formed', value=value, text=text.value,
                observed=document, **detail)
            root = document.value.documentElement
            ctx.check(root.tagName == (spec.get('name') or 'root'), 'the root element has another name',
                text=text.value, **detail)
            problem = wrong_element(root, spec, form)
            ctx.check(not problem, problem or '', value=value, text=text.value, **detail)
            explicit = attempt(Xml.unserialize, text.value, field)
            ctx.check(explicit.kind == 'ok' and same(explicit.value, form), 'the format reads other data than was written',
                value=value, text=text.value, observed=explicit, expected=form, **detail)
            back = attempt(field.unserialize, text.value, 'xml')
            ctx.check(back.kind == 'ok' and same(back.value, value), 'the document does not denote the value',
                value=value, text=text.value, observed=back, **detail)
        # the same document written by another tool
        other = attempt(field.unserialize, respelled(rng, text.value, root), 'xml')
        ctx.check(same_or_null(other, value), 'an equivalent document does not denote the value', value=value,
            text=respelled(rng, text.value, root), observed=other, **detail)
        ctx.seen(describe_spec(spec), value)
        ctx.count('documents', 2)
    refusals(ctx, rng)
    ctx.sample(describe_spec(spec))


def refusals(ctx, rng):
    """What XML cannot tell apart or does not describe is refused, not guessed."""
    F = scheme.fields
    union = F.Union((F.Text(), F.Integer()))
    schema = rng.choice([lambda: union, lambda: F.Sequence(union), lambda: F.Structure({'a': union}), lambda: F.Tuple((union,)), lambda: F.Map(union)])()
    value = {'union': 'x', 'sequence': ['x', 1], 'structure': {'a': 'x'}, 'tuple': ('x',), 'map': {'a': 1}}[schema.type]
    for outcome in (attempt(Xml.serialize, value, schema), attempt(schema.serialize, value, 'xml')):
        ctx.check(outcome.kind != 'ok', 'a value whose alternative XML does not tell is written', schema=repr(schema), observed=outcome)
    text = '<root>x</root>' if schema is union else '<root><a>x</a></root>'
    for outcome in (attempt(Xml.unserialize, text, schema), attempt(schema.unserialize, text, 'xml')):
        ctx.check(outcome.kind != 'ok', 'a value whose alternative XML does not tell is read', schema=repr(schema), observed=outcome)
    for nothing in (None, {'fieldtype': 'text'}, F.Text):
        for outcome in (attempt(Xml.serialize, 'x', nothing), attempt(Xml.unserialize, '<root>x</root>', nothing)):
            ctx.check(outcome.kind != 'ok', 'XML is handled without a schema', schema=repr(nothing), observed=outcome)
    broken = rng.choice(['', 'x', '<root>', '<root><a></root>', '<root/><root/>', '<root a=1/>', '<root>&unknown;</root>', '<root>\x00</root>', '</root>'])
    outcome = attempt(F.Text().unserialize, broken, 'xml')
    ctx.check(outcome.kind != 'ok', 'a document which is not well-formed is read', text=broken, observed=outcome)
    ctx.count('refusals')


def same_or_null(outcome, value):
    return outcome.kind == 'ok' and same(outcome.value, value)


def respelled(rng, text, root):
    return '<?xml version="1.0" encoding="utf-8"?><!-- c -->\n' + root.toxml()


def wrong_element(element, spec, form):
    """Each element holds what the serialized value says: an independent reading by the schema."""
    nodes = [n for n in element.childNodes if n.nodeType == n.ELEMENT_NODE]
    text = ''.join(n.data for n in element.childNodes if n.nodeType in (n.TEXT_NODE, n.CDATA_SECTION_NODE))
    if (element.getAttribute('null') == 'true') != (form is None):
        return 'element %r marks null wrongly' % element.tagName
    if form is None:
        return None if not nodes and not text else 'a null element has content'
    t = spec['t']
    if isinstance(form, dict):
        if sorted(n.tagName for n in nodes) != sorted(form):
            return 'element %r has children %r instead of %r' % (element.tagName,
                sorted(n.tagName for n in nodes), sorted(form))
        if t == 'structure':
            members = model.form_members(spec, form)
        for n in nodes:
            problem = wrong_element(n, members[n.tagName] if t == 'structure' else spec['value'], form[n.tagName])
            if problem:
                return problem
    elif isinstance(form, (list, tuple)):
        if len(nodes) != len(form):
            return 'element %r has %d children instead of %d' % (element.tagName, len(nodes), len(form))
        for i, (n, v) in enumerate(zip(nodes, form)):
            child = spec['item'] if t == 'sequence' else spec['values'][i]
            if n.tagName != (child.get('name') or ('item' if t == 'sequence' else 'value')):
                return 'item %d is named %r' % (i, n.tagName)
            problem = wrong_element(n, child, v)
            if problem:
                return problem
    else:
        wanted = {True: 'true', False: 'false'}[form] if isinstance(form, bool) else str(form)
        if nodes or text != wanted:
            return 'element %r holds %r instead of %r' % (element.tagName, text, wanted)
