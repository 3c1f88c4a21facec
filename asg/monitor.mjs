// C38: the ASG schema and its tools, on generated documents.
// node monitor.mjs check TIER | case N TIER
import { createRequire } from 'node:module'
import { spawnSync } from 'node:child_process'
import assert from 'node:assert/strict'
import fs from 'node:fs'
import os from 'node:os'
import path from 'node:path'
import { pathToFileURL } from 'node:url'

const MODULES = '/opt/veriftools/node/node_modules'
const ASG = '/repo/asg'
const here = process.env.VERIF_DIR
const seed = Number(process.env.VERIF_SEED || 1)
const [mode, ...args] = process.argv.slice(2)
const tier = (mode === 'case' ? args[1] : args[0]) || 'quick'
const CASES = Number(process.env.VMON_CASES || (tier === 'thorough' ? 1_500_000 : 24_000))
const LIMIT = tier === 'thorough' ? 600 : 240
const t0 = Date.now()

// The tools as they are installed: in a folder of their own, with the validator beside them.
const dir = fs.mkdtempSync(path.join(os.tmpdir(), 'vmon-asg-'))
process.on('exit', () => fs.rmSync(dir, { recursive: true, force: true }))
for (const f of ['bin', 'lib', 'package.json', 'schema.js', 'schema.json']) fs.cpSync(path.join(ASG, f), path.join(dir, f), { recursive: true })
fs.mkdirSync(path.join(dir, 'node_modules'))
for (const m of fs.readdirSync(MODULES)) if (m !== '.bin') fs.symlinkSync(path.join(MODULES, m), path.join(dir, 'node_modules', m))
process.chdir(dir)
const require = createRequire(path.join(dir, 'x.js'))
const Ajv = require('ajv/dist/2020.js').default
const defaultsKeyword = (await import(pathToFileURL(path.join(dir, 'lib/ajv-keyword-defaults.js')))).default
const schema = (await import(pathToFileURL(path.join(dir, 'schema.js')))).default

// ---- random choices
let s0
const rng = (n) => {
  s0 = (s0 + 0x9e3779b97f4a7c15n) & 0xffffffffffffffffn
  let z = s0
  z = ((z ^ (z >> 30n)) * 0xbf58476d1ce4e5b9n) & 0xffffffffffffffffn
  z = ((z ^ (z >> 27n)) * 0x94d049bb133111ebn) & 0xffffffffffffffffn
  return Number((z ^ (z >> 31n)) % BigInt(n))
}
const start = (i) => { s0 = (BigInt(seed) * 1_000_003n + BigInt(i) * 0x5851f42d4c957f2dn) & 0xffffffffffffffffn; rng(2) }
const pick = (a) => a[rng(a.length)]
const one = (n) => rng(n) === 0
const counters = {}
const count = (k, n = 1) => { counters[k] = (counters[k] || 0) + n }

// ---- documents as the graph is described: every node knows what may be left out
const STR = ['', 'a', 'Document Title', 'é日本', 'x'.repeat(300), '{ "name": 1 }', '__proto__', '\u0000']
const str = () => pick(STR)
const list = (max, f) => Array.from({ length: rng(max + 1) }, f)
const kinds = [] // [kind, node, parent's body kind]
const node = (kind, o) => { kinds.push([kind, o]); return o }
const boundary = () => {
  const b = node('boundary', { line: 1 + rng(500), col: rng(300) })
  if (one(5)) b.file = ['a.adoc', 'b/c.adoc'].slice(0, 1 + rng(2))
  return b
}
const location = () => node('location', [boundary(), boundary()])
const loc = (o) => { if (one(3)) o.location = location(); return o }

function inline (d) {
  switch (d <= 0 ? 0 : rng(4)) {
    case 0:
    case 1:
      return loc(node('literal', { name: pick(['text', 'charref', 'raw']), type: 'string', value: str() }))
    case 2:
      return loc(node('span', { name: 'span', type: 'inline', variant: pick(['strong', 'emphasis', 'code', 'mark']), form: pick(['constrained', 'unconstrained']), inlines: inlines(d - 1) }))
    default:
      return loc(node('ref', { name: 'ref', type: 'inline', variant: pick(['link', 'xref']), target: str(), inlines: inlines(d - 1) }))
  }
}
const inlines = (d) => list(3, () => inline(d))

function metadata () {
  const m = node('metadata', { attributes: {}, options: list(2, str), roles: list(2, str) })
  for (const k of ['a', '_x', 'A-9_', '$1', '$10', 'role']) if (one(4)) m.attributes[k] = str()
  return loc(m)
}

function common (o) {
  if (one(4)) o.id = str()
  if (one(5)) o.title ??= inlines(2)
  if (one(6)) o.reftext = inlines(1)
  if (one(4)) o.metadata = metadata()
  return loc(o)
}

const heading = (o) => ({ ...o, title: inlines(2), level: rng(7) })
const body = (d) => list(d > 0 ? 3 : 0, () => block(d - 1))
const sectionBody = (d) => list(d > 0 ? 4 : 0, () => (one(3) ? section(d - 1) : block(d - 1)))
const section = (d) => node('section', common(heading({ name: 'section', type: 'block', blocks: sectionBody(d) })))

function block (d) {
  switch (rng(d > 0 ? 8 : 5)) {
    case 0:
    case 1: {
      const o = { name: pick(['listing', 'literal', 'paragraph', 'pass', 'stem', 'verse']), type: 'block', inlines: inlines(2) }
      const form = pick([undefined, 'delimited', 'indented', 'paragraph'])
      if (form) o.form = form
      if (form === 'delimited') o.delimiter = pick(['----', '....', ''])
      return node(form === 'delimited' ? 'delimited leaf' : 'leaf', common(o))
    }
    case 2:
      return node('break', common({ name: 'break', type: 'block', variant: pick(['page', 'thematic']) }))
    case 3: {
      const o = { name: pick(['audio', 'video', 'image', 'toc']), type: 'block', form: 'macro' }
      if (one(2)) o.target = str()
      return node('macro', common(o))
    }
    case 4:
      return node('heading', common(heading({ name: 'heading', type: 'block' })))
    case 5: {
      const items = [0, ...list(2, () => 0)].map(() => node('item', common({ name: 'listItem', type: 'block', marker: pick(['*', '-', '1.', '<1>']), principal: inlines(2), blocks: body(d - 1) })))
      return node('list', common({ name: 'list', type: 'block', marker: pick(['*', '.', '<>']), variant: pick(['callout', 'ordered', 'unordered']), items }))
    }
    case 6: {
      const items = [0, ...list(2, () => 0)].map(() => {
        const o = { name: 'dlistItem', type: 'block', marker: '::', terms: [inlines(1), ...list(1, () => inlines(1))], blocks: body(d - 1) }
        if (one(2)) o.principal = inlines(1)
        return node('ditem', common(o))
      })
      return node('dlist', common({ name: 'dlist', type: 'block', marker: '::', items }))
    }
    default: {
      const o = { name: pick(['admonition', 'example', 'sidebar', 'open', 'quote']), type: 'block', form: 'delimited', delimiter: pick(['====', '--', '']), blocks: body(d - 1) }
      if (o.name === 'admonition') o.variant = pick(['caution', 'important', 'note', 'tip', 'warning'])
      return node(o.name === 'admonition' ? 'admonition' : 'parent', common(o))
    }
  }
}

function author () {
  const a = node('author', {})
  for (const k of ['fullname', 'initials', 'firstname', 'middlename', 'lastname', 'address']) if (one(2)) a[k] = str()
  return a
}

function document () {
  kinds.length = 0
  const o = { name: 'document', type: 'block', blocks: sectionBody(1 + rng(4)) }
  if (one(2)) {
    o.attributes = {}
    for (const k of ['a', '_x', 'A-9_', '0', 'set-attribute']) if (one(3)) o.attributes[k] = one(4) ? null : str()
    if (one(2)) {
      const h = node('header', {})
      if (one(2)) h.title = inlines(2)
      if (one(2)) h.authors = [author(), ...list(1, author)]
      o.header = loc(h)
    }
  }
  return node('document', loc(o))
}

const EMPTY = { document: ['blocks'], section: ['blocks'], item: ['blocks'], ditem: ['blocks'], leaf: ['inlines'], 'delimited leaf': ['inlines'], parent: ['blocks'], admonition: ['blocks'], metadata: ['attributes', 'options', 'roles'] }

// ---- what makes a document another one, for certain
const WRONG = { string: [1, true, null, [], {}], array: ['x', 1, null, {}, true], object: ['x', 1, null, [], false], number: ['1', null, 1.5, [], true, -1] }
const REQ = {
  document: ['name', 'type'], section: ['name', 'type', 'title', 'level'], heading: ['name', 'type', 'title', 'level'],
  leaf: ['name', 'type'], 'delimited leaf': ['name', 'type', 'delimiter'], break: ['name', 'type', 'variant'], macro: ['name', 'type', 'form'],
  list: ['name', 'type', 'marker', 'variant', 'items'], dlist: ['name', 'type', 'marker', 'items'],
  item: ['name', 'type', 'marker', 'principal'], ditem: ['name', 'type', 'marker', 'terms'],
  parent: ['name', 'type', 'form', 'delimiter'], admonition: ['name', 'type', 'form', 'delimiter', 'variant'],
  literal: ['name', 'type', 'value'], span: ['name', 'type', 'variant', 'form', 'inlines'], ref: ['name', 'type', 'variant', 'target', 'inlines'],
  boundary: ['line', 'col'],
}
const ENUM = {
  document: ['name', 'type'], section: ['name', 'type'], heading: ['name', 'type'], leaf: ['name', 'type', 'form'], 'delimited leaf': ['name', 'type', 'form'], break: ['name', 'type', 'variant'],
  macro: ['name', 'type', 'form'], list: ['name', 'type', 'variant'], dlist: ['name', 'type'], item: ['name', 'type'], ditem: ['name', 'type'],
  parent: ['name', 'type', 'form'], admonition: ['type', 'form', 'variant'], literal: ['name', 'type'], span: ['name', 'type', 'variant', 'form'], ref: ['name', 'type', 'variant'],
}
const NONE = ['zzz', '', 'Block', 'inlines', 'strong ', 'documents', 'document']
// What some node may say somewhere, and where.
const LEAF = ['listing', 'literal', 'paragraph', 'pass', 'stem', 'verse']
const PARENT = ['example', 'sidebar', 'open', 'quote']
const MEDIA = ['audio', 'video', 'image', 'toc']
const MAY = {
  leaf: { name: LEAF, form: ['delimited', 'indented', 'paragraph'] }, 'delimited leaf': { name: LEAF, form: ['delimited', 'indented', 'paragraph'] },
  break: { name: ['break'], variant: ['page', 'thematic'] }, macro: { name: MEDIA, form: ['macro'] }, list: { name: ['list'], variant: ['callout', 'ordered', 'unordered'] },
  parent: { name: [...PARENT, 'admonition'], form: ['delimited'] }, admonition: { name: [...PARENT, 'admonition'], form: ['delimited'], variant: ['caution', 'important', 'note', 'tip', 'warning'] },
  literal: { name: ['text', 'charref', 'raw'], type: ['string'] }, span: { type: ['inline'], variant: ['strong', 'emphasis', 'code', 'mark'], form: ['constrained', 'unconstrained'] },
  ref: { type: ['inline'], variant: ['link', 'xref'] },
}
const SAID = [...LEAF, ...PARENT, ...MEDIA, 'admonition', 'delimited', 'indented', 'page', 'thematic', 'callout', 'ordered', 'unordered', 'macro', 'caution', 'note', 'text', 'charref', 'raw', 'string', 'inline', 'strong', 'mark', 'constrained', 'unconstrained', 'link', 'xref', 'list', 'dlist', 'listItem', 'dlistItem', 'heading', 'section', 'block', 'break', 'span', 'ref', 'table', 'anchor', 'superscript', 'comment', 'preamble', 'colist', 'email']

function spoil () {
  for (let k = 0; k < 50; k++) {
    const of = pick([...new Set(kinds.map(([k]) => k))])
    const [kind, o] = pick(kinds.filter(([k]) => k === of))
    switch (rng(8)) {
      case 0: {
        const r = REQ[kind]
        if (!r) break
        const p = pick(r)
        if (!(p in o)) break
        delete o[p]
        return `${kind} without ${p}`
      }
      case 1:
        if (Array.isArray(o)) break
        {
          const p = pick(['foo', 'Name', 'x', 'inlines', 'blocks', 'items', 'terms', 'target', 'level', 'file', 'value', 'principal'])
          if (p in o) break
          if (['item', 'ditem'].includes(kind) && ['blocks', 'principal'].includes(p)) break
          if (kind === 'macro' && p === 'target') break
          if (kind === 'boundary' && p === 'file') break
          if (EMPTY[kind]?.includes(p)) break
          o[p] = pick(['x', 1, []])
          return `${kind} with an unknown ${p}`
        }
      case 2: {
        if (Array.isArray(o)) break
        const ps = Object.keys(o)
        if (!ps.length) break
        const p = pick(ps)
        const t = Array.isArray(o[p]) ? 'array' : typeof o[p]
        if (!WRONG[t] || o[p] === null) break
        const w = pick(WRONG[t])
        o[p] = structuredClone(w)
        return (w === null ? 'null for ' : 'wrong type of ') + `${kind}.${p}`
      }
      case 3: {
        const r = ENUM[kind]
        if (!r) break
        const p = pick(r)
        if (!(p in o)) break
        const v = pick([pick(NONE), pick(SAID), o[p] + pick(['s', 'zz', ' ', '\n']), o[p].toUpperCase(), o[p].slice(1), o[p].slice(0, -1)])
        if (v === o[p] || MAY[kind]?.[p]?.includes(v)) break
        // One kind of node for another of the same parts.
        if (p === 'name' && v === { section: 'heading', heading: 'section' }[kind]) break
        o[p] = v
        return `${kind}.${p} is none of the values`
      }
      case 4: {
        const m = { list: 'items', dlist: 'items', ditem: 'terms', header: 'authors', boundary: 'file' }[kind]
        if (!m || !o[m]) break
        o[m] = []
        return `${kind}.${m} is empty`
      }
      case 5: {
        if (kind === 'location') {
          if (one(2)) o.pop(); else o.push({ line: 1, col: 1 })
          return 'location of another length'
        }
        if (kind === 'boundary') {
          const [p, v] = pick([['line', 0], ['line', -1], ['line', 1.5], ['col', -1], ['col', 0.5], ['file', [1]]])
          o[p] = v
          return `boundary ${p} out of range`
        }
        if (kind === 'section' || kind === 'heading') {
          o.level = pick([-1, 0.5, '1'])
          return 'level out of range'
        }
        break
      }
      case 6: {
        // Something in a place that is not for its kind.
        const sec = { name: 'section', type: 'block', title: [], level: 1 }
        const para = { name: 'paragraph', type: 'block' }
        const text = { name: 'text', type: 'string', value: 'x' }
        const item = { name: 'listItem', type: 'block', marker: '*', principal: [] }
        const doc = { name: 'document', type: 'block' }
        if (['parent', 'admonition', 'item', 'ditem'].includes(kind)) {
          o.blocks.push(pick([sec, text, item, doc, 'x', null]))
          return `misplaced node in the blocks of ${kind}`
        }
        if (['document', 'section'].includes(kind)) {
          o.blocks.push(pick([text, item, doc, 7]))
          return `misplaced node in the blocks of ${kind}`
        }
        if (['leaf', 'delimited leaf', 'span', 'ref'].includes(kind)) {
          o.inlines.push(pick([sec, para, item, doc, 'x']))
          return `misplaced node in the inlines of ${kind}`
        }
        if (['list', 'dlist'].includes(kind)) {
          o.items.push(kind === 'list' ? pick([para, { name: 'dlistItem', type: 'block', marker: '::', terms: [[]] }]) : pick([para, item]))
          return `misplaced node in the items of ${kind}`
        }
        break
      }
      default: {
        if (kind === 'metadata' || kind === 'document') {
          if (!o.attributes) break
          if (kind === 'document') {
            const [n, v] = pick([['-x', 'a'], ['a b', 'a'], ['', 'a'], ['é', 'a'], ['$1', 'a'], ['ok', 1], ['ok', true], ['ok', []]])
            o.attributes[n] = v
          } else {
            const [n, v] = pick([['-x', 'a'], ['1a', 'a'], ['$0', 'a'], ['$01', 'a'], ['$', 'a'], ['$x', 'a'], ['$1x', 'a'], ['ok', 1], ['ok', null], ['ok', {}]])
            o.attributes[n] = v
          }
          return `attribute of ${kind}`
        }
        if (kind === 'leaf') {
          o.delimiter = '----'
          return 'delimiter of what is not delimited'
        }
        if (kind === 'parent') {
          o.variant = 'note'
          return 'variant of what is no admonition'
        }
        if (kind === 'header') {
          kinds.at(-1)[1].attributes = undefined
          delete kinds.at(-1)[1].attributes
          return 'header without attributes'
        }
      }
    }
  }
  return null
}

// ---- monitor
const fails = []
let evaluations = 0
const distinct = new Set()
const samples = []
const fresh = () => new Ajv({ allErrors: false, discriminator: true, keywords: [defaultsKeyword()] }).compile(schema)
let validate
try {
  validate = fresh()
} catch (e) {
  fails.push({ i: -1, sig: 'the schema does not compile', detail: String(e), doc: null })
}
const fail = (i, sig, detail, doc) => { if (fails.length < 60) fails.push({ i, sig, detail, doc }) }

function one_case (i) {
  start(i)
  const full = document()
  const spoiled = rng(5) < 2 ? spoil() : null
  if (spoiled) {
    evaluations++
    count('documents that are not valid')
    count(`not valid: ${spoiled.split(' ').slice(0, 2).join(' ')}…`)
    distinct.add(spoiled + kinds.length)
    const given = JSON.stringify(full)
    if (samples.length < 4) samples.push(`not valid (${spoiled}): ${given.slice(0, 600)}`)
    let ok
    try { ok = validate(JSON.parse(given)) } catch (e) { ok = String(e) }
    if (ok !== false) fail(i, `${spoiled} is accepted`, `the answer was ${ok}`, given)
    if (i % 1600 === 0) cli(i, given, false, full)
    return
  }
  count('valid documents')
  count('nodes', kinds.length)
  for (const [k] of kinds) count('nodes: ' + k)
  const given = JSON.stringify(full) // a copy, not a graph that shares nodes
  const data = JSON.parse(given)
  // Leave out what may be left out.
  let left = 0
  const prune = (o, k) => {
    if (Array.isArray(o)) return o.forEach((x) => prune(x))
    if (o === null || typeof o !== 'object') return
    for (const v of Object.values(o)) prune(v)
    const kind = o.name === 'document' ? 'document' : o.name === 'section' ? 'section' : o.name === 'listItem' ? 'item' : o.name === 'dlistItem' ? 'ditem' : ['listing', 'literal', 'paragraph', 'pass', 'stem', 'verse'].includes(o.name) ? 'leaf' : ['admonition', 'example', 'sidebar', 'open', 'quote'].includes(o.name) ? 'parent' : 'options' in o && 'roles' in o ? 'metadata' : ''
    for (const p of EMPTY[kind] || []) {
      if (o[p] && Object.keys(o[p]).length === 0 && rng(3) > 0) { delete o[p]; left++ }
    }
  }
  prune(data)
  count('properties left out', left)
  const pruned = JSON.stringify(data)
  evaluations++
  distinct.add(pruned)
  if (samples.length < 8) samples.push(pruned.slice(0, 600))
  let ok
  try { ok = validate(data) } catch (e) { ok = String(e) }
  if (ok !== true) return fail(i, 'a valid document is refused', ok === false ? JSON.stringify(validate.errors?.[0]) : ok, pruned)
  try {
    assert.deepStrictEqual(JSON.parse(JSON.stringify(data)), JSON.parse(given))
  } catch (e) {
    return fail(i, 'an accepted document is not filled in as it must be', `must be ${given}\nbut is  ${JSON.stringify(data)}`, pruned)
  }
  // What is filled in belongs to this document: no list or map is there twice, in it or in the next.
  const seen = new Set()
  const own = (o) => {
    if (o === null || typeof o !== 'object') return
    if (seen.has(o)) return fail(i, 'what was filled in is shared', 'one list or map is the value of two properties', pruned)
    seen.add(o)
    for (const v of Object.values(o)) own(v)
    if (Array.isArray(o)) o.push({ name: 'spoiled' }); else o['spoiled'] = 1
  }
  own(data)
  if (i % 1600 === 1) cli(i, pruned, true, JSON.parse(given))
  if (i % 1600 === 2) wrapped(i)
}

// The command line tool: it reports what is not valid, and only that.
function cli (i, text, valid, full) {
  count('runs of the tool')
  fs.writeFileSync('given.json', text)
  const r = spawnSync('node', ['bin/validate-asg.js', 'given.json', ...(valid ? ['--out'] : []), ...(i % 3 ? [] : ['--validate-schema'])], { encoding: 'utf8', timeout: 60000, maxBuffer: 1 << 28 })
  if (r.status !== 0) return fail(i, 'the tool fails', r.stderr, text)
  if (!valid && !r.stdout.startsWith('given.json\n')) fail(i, 'the tool accepts what is not valid', r.stdout, text)
  if (valid) {
    if (r.stdout.startsWith('given.json')) return fail(i, 'the tool refuses what is valid', r.stdout, text)
    let out
    try { out = (0, eval)('(' + r.stdout.replaceAll('[__proto__]', '"__proto__"') + ')') } catch (e) { return count('output of the tool not read') }
    try {
      assert.deepEqual(JSON.parse(JSON.stringify(out)), full)
      count('outputs of the tool compared')
    } catch (e) {
      fail(i, 'the tool does not show the document it validated', r.stdout.slice(0, 4000), text)
    }
  }
}

// A list of inlines stands for a document of one paragraph.
function wrapped (i) {
  kinds.length = 0
  const l = list(3, () => { const x = inline(2); x.location = location(); return x })
  const text = JSON.stringify(l)
  const full = { name: 'document', type: 'block', blocks: [{ name: 'paragraph', type: 'block', inlines: l }] }
  if (l.length) full.location = full.blocks[0].location = [l[0].location[0], l.at(-1).location[1]]
  count('lists of inlines')
  cli(i, text, true, JSON.parse(JSON.stringify(full)))
}

// Every value, every property that must be there and every unknown one, of every kind of node, in a small graph.
function every () {
  const small = {}
  for (let k = 0; k < 600; k++) {
    start(7_000_000 + k)
    const d = document()
    const n = JSON.stringify(d).length
    for (const [kind, o] of kinds) if (!small[kind] || small[kind].n > n) small[kind] = { n, d, o }
  }
  const ask = (what, d, want) => {
    evaluations++
    count(want ? 'values that are allowed, one by one' : 'values that are not allowed, one by one')
    const text = JSON.stringify(d)
    let ok
    try { ok = validate(JSON.parse(text)) } catch (e) { ok = String(e) }
    if (ok !== want) fail(-2, `${what} is ${want ? 'refused' : 'accepted'}`, `the answer was ${ok}`, text)
  }
  for (const [kind, { d, o }] of Object.entries(small)) {
    ask(`a graph with a ${kind}`, d, true)
    for (const p of ENUM[kind] || []) {
      const had = o[p]
      const may = MAY[kind]?.[p] || (had === undefined ? [] : [had])
      const words = new Set([...NONE, ...SAID, ...[...may, ...SAID].flatMap((w) => [w + 's', w + 'zz', w + ' ', w + '\n', ' ' + w, w.toUpperCase(), w.slice(1), w.slice(0, -1), w[0].toUpperCase() + w.slice(1)])])
      for (const w of words) {
        if (may.includes(w) || w === had) continue
        if (p === 'name' && w === { section: 'heading', heading: 'section' }[kind]) continue
        o[p] = w
        ask(`${kind}.${p} = ${JSON.stringify(w)}`, d, false)
      }
      for (const w of may) {
        if (kind === 'leaf' && w === 'delimited' || kind === 'delimited leaf' && p === 'form' || (kind === 'parent' || kind === 'admonition') && p === 'name') continue
        o[p] = w
        ask(`${kind}.${p} = ${JSON.stringify(w)}`, d, true)
      }
      if (had === undefined) delete o[p]; else o[p] = had
    }
    // Lists of what is of another type.
    for (const [p, v] of Object.entries(o)) {
      if (!Array.isArray(v)) continue
      const text = kind === 'metadata'
      for (const w of [1, null, true, {}, [], ...(text ? [] : ['x', { name: 'zzz' }])]) {
        if (p === 'terms' && Array.isArray(w)) continue
        o[p] = [...v, w]
        ask(`${kind}.${p} with ${JSON.stringify(w)}`, d, false)
      }
      o[p] = v
    }
    for (const p of REQ[kind] || []) {
      const had = o[p]
      delete o[p]
      ask(`${kind} without ${p}`, d, false)
      o[p] = had
    }
    if (!Array.isArray(o)) {
      for (const p of ['foo', 'Name', '$ref', 'Id', 'role', 'style', 'lines', 'children']) {
        o[p] = 'x'
        ask(`${kind} with an unknown ${p}`, d, false)
        delete o[p]
      }
    }
  }
}

if (mode !== 'case' || args[0] === '-2') if (validate) every()
if (mode === 'case') {
  if (validate && args[0] >= 0) one_case(Number(args[0]))
} else if (validate) {
  for (let i = 0; i < CASES && fails.length < 40; i++) {
    one_case(i)
    if (i % 1000 === 0 && Date.now() - t0 > LIMIT * 1000) { count('stopped by the time limit'); break }
  }
}

const wall = (Date.now() - t0) / 1000
if (mode !== 'case') {
  fs.mkdirSync(path.join(here, 'evidence/replay'), { recursive: true })
  fs.writeFileSync(
    path.join(here, 'evidence/C38.json'),
    JSON.stringify({
      property: 'C38', tier, seed, level: 'exploration',
      coverage: {
        evaluations, distinct_nontrivial: distinct.size,
        rule: 'Graphs made of every kind of node, nested to depth 4, with what may be left out left out at random, and such graphs with one thing made wrong; the schema, compiled with its keyword, must accept the ones, filled in, and refuse the others. Distinct by text, for those made wrong by what and how large.',
        samples, observed: counters,
      },
      assumptions: ['The validator (ajv) is the installed one; the oracle is the generator, which knows what it left out or made wrong.'],
      wall_s: wall, violations: fails.length,
    }, null, 1) + '\n')
}
console.log(`C38 ${tier}: ${evaluations} evaluations, ${distinct.size} distinct non-trivial, ${fails.length} violations, ${wall.toFixed(1)} s`)
const sigs = new Set()
for (const f of fails) {
  if (sigs.has(f.sig)) continue
  sigs.add(f.sig)
  const p = path.join(here, `evidence/replay/C38-${sigs.size}.txt`)
  if (mode !== 'case') fs.writeFileSync(p, `property C38\nseed ${seed}\ncase ${f.i}\nrerun: VERIF_DIR=${here} VERIF_SEED=${seed} node ${here}/asg/monitor.mjs case ${f.i}\nwhat: ${f.sig}\n\n${f.detail}\n\ninput:\n${f.doc}\n`)
  console.log(`VIOLATION property=C38 replay=${p}`)
  console.log(`  ${f.sig}: ${String(f.detail).slice(0, 600)}\n  input: ${String(f.doc).slice(0, 600)}`)
}
if (fails.length) process.exit(1)
if (mode !== 'case' && ['valid documents', 'documents that are not valid', 'properties left out', 'runs of the tool', 'outputs of the tool compared', 'lists of inlines', 'values that are allowed, one by one', 'values that are not allowed, one by one'].some((k) => !counters[k])) {
  console.log('INCONCLUSIVE C38: never observed: ' + JSON.stringify(counters))
  process.exit(2)
}
