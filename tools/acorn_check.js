// Development tool: compares the reference model's verdicts and trees with those of acorn.
// usage: mc export [--every N] | node tools/acorn_check.js
const acorn = require('/opt/veriftools/node/node_modules/acorn');
const rl = require('readline').createInterface({ input: process.stdin });
let src;
const raw = n => src.slice(n.start, n.end);
const N = (k, v, c) => k + (v ? ':' + v : '') + (c && c.length ? '(' + c.join(' ') + ')' : '');
const L = c => '[' + c.join(' ') + ']';
const name = n => N('Name', raw(n));
const dropVoid = a => { a = a.slice(); return a; };
function key(p) {
  if (p.computed) return N('KComp', '', [expr(p.key)]);
  const r = raw(p.key);
  return N(/^0[bB]/.test(r) ? 'KBin' : 'KLit', r);
}
function func(n) { return [n.id ? name(n.id) : '-', L(n.params.map(pat)), block(n.body)]; }
function mfunc(n) { return N('Func', n.generator ? '*' : '', ['-', L(n.params.map(pat)), block(n.body)]); }
function cls(n) { return [n.id ? name(n.id) : '-', n.superClass ? expr(n.superClass) : '-', N('Block', '', n.body.body.map(member))]; }
function member(m) {
  if (m.type === 'PropertyDefinition') return N('Field', m.static ? 'static' : '', [key(m), m.value ? expr(m.value) : '?']);
  const kind = m.kind;
  return N('Method', (m.static ? 'static ' : '') + kind, [key(m), mfunc(m.value)]);
}
function tpl(n) {
  const c = [];
  n.quasis.forEach((q, i) => { c.push(N('Quasi', q.value.raw)); if (i < n.expressions.length) c.push(expr(n.expressions[i])); });
  // raw normalises line terminators: use the source instead
  const d = []; n.quasis.forEach((q, i) => { d.push(N('Quasi', src.slice(q.start, q.end))); if (i < n.expressions.length) d.push(expr(n.expressions[i])); });
  return N('Tpl', '', d);
}
function prop(p) {
  if (p.type === 'SpreadElement') return N('PSpread', '', [expr(p.argument)]);
  if (p.shorthand) return N('PShort', raw(p.key));
  if (p.method) return N('PMeth', '', [key(p), mfunc(p.value)]);
  if (p.kind !== 'init') return '?accessor';
  return N('PLit', '', [key(p), expr(p.value)]);
}
function asPatExpr(n) { // assignment patterns are expressions in ratel
  switch (n.type) {
    case 'ArrayPattern': return N('Arr', '', n.elements.map(e => e ? asPatExpr(e) : 'Void'));
    case 'ObjectPattern': return N('Obj', '', n.properties.map(p => p.type === 'RestElement' ? N('PSpread', '', [asPatExpr(p.argument)]) : p.shorthand ? (p.value.type === 'AssignmentPattern' ? '?' : N('PShort', raw(p.key))) : N('PLit', '', [key(p), asPatExpr(p.value)])));
    case 'AssignmentPattern': return N('Binary', '=', [asPatExpr(n.left), expr(n.right)]);
    case 'RestElement': return N('Spread', '', [asPatExpr(n.argument)]);
    default: return expr(n);
  }
}
function expr(n) {
  switch (n.type) {
    case 'ThisExpression': return 'This';
    case 'Identifier': return n.name === 'undefined' ? 'Undef' : N('Ident', raw(n));
    case 'Literal': {
      const r = raw(n);
      if (n.regex) return N('Regex', r);
      if (typeof n.value === 'string') return N('Str', r);
      if (typeof n.value === 'number') return N(/^0[bB]/.test(r) ? 'Bin' : 'Num', r);
      if (n.value === null) return 'Null';
      return n.value ? 'True' : 'False';
    }
    case 'SequenceExpression': return N('Seq', '', n.expressions.map(expr));
    case 'ArrayExpression': return N('Arr', '', n.elements.map(e => e ? expr(e) : 'Void'));
    case 'SpreadElement': return N('Spread', '', [expr(n.argument)]);
    case 'MemberExpression': return n.computed ? N('Comp', '', [expr(n.object), expr(n.property)]) : N('Member', '', [expr(n.object), name(n.property)]);
    case 'MetaProperty': return N('Meta', '', [name(n.meta), name(n.property)]);
    case 'ImportExpression': return N('Call', '', [N('Ident', 'import'), expr(n.source)]);
    case 'CallExpression': return N('Call', '', [expr(n.callee), ...n.arguments.map(expr)]);
    case 'NewExpression': { const hasParens = raw(n).endsWith(')') && !(n.arguments.length === 0 && n.callee.end === n.end && true); 
      // distinguish `new (a)` from `new a()` by looking for "()" after the callee
      let paren = n.arguments.length > 0;
      if (!paren) { // the text after the callee (and the parentheses around it) must hold "(" ")"
        const t = tokens(n.callee.end, n.end); let depth = 0;
        for (const x of t) { if (x === '(') depth++; }
        paren = depth > 0;
      }
      // ratel gives `new (f())` an empty argument list
      if (!paren && n.callee.type === 'CallExpression') paren = true;
      return N('New', paren ? '()' : '', [expr(n.callee), ...n.arguments.map(expr)]);
    }
    case 'BinaryExpression': case 'LogicalExpression': return N('Binary', n.operator, [expr(n.left), expr(n.right)]);
    case 'AssignmentExpression': return N('Binary', n.operator, [asPatExpr(n.left), expr(n.right)]);
    case 'UnaryExpression': return N('Pre', n.operator, [expr(n.argument)]);
    case 'UpdateExpression': return N(n.prefix ? 'Pre' : 'Post', n.operator, [expr(n.argument)]);
    case 'ConditionalExpression': return N('Cond', '', [expr(n.test), expr(n.consequent), expr(n.alternate)]);
    case 'TemplateLiteral': return tpl(n);
    case 'TaggedTemplateExpression': return N('Tagged', '', [expr(n.tag), tpl(n.quasi)]);
    case 'ArrowFunctionExpression': return N('Arrow', '', [L(n.params.map(pat)), n.expression ? expr(n.body) : block(n.body)]);
    case 'ObjectExpression': return N('Obj', '', n.properties.map(prop));
    case 'FunctionExpression': return N('Func', n.generator ? '*' : '', func(n));
    case 'ClassExpression': return N('Class', '', cls(n));
    default: return '?' + n.type;
  }
}
function tokens(a, b) { const t = []; for (const x of acorn.tokenizer(src.slice(a, b), { ecmaVersion: 2022, sourceType: 'module' })) t.push(src.slice(a + x.start, a + x.end)); return t; }
function pat(n) {
  switch (n.type) {
    case 'Identifier': return N('BIdent', raw(n));
    case 'ObjectPattern': return N('BObj', '', n.properties.map(p => p.type === 'RestElement' ? N('BRest', '', [name(p.argument)]) : p.shorthand ? (p.value.type === 'AssignmentPattern' ? '?' : N('BShort', raw(p.key))) : N('BProp', '', [key(p), pat(p.value)])));
    case 'ArrayPattern': return N('BArr', '', n.elements.map(e => e ? pat(e) : 'BVoid'));
    case 'RestElement': return N('BRest', '', [n.argument.type === 'Identifier' ? name(n.argument) : pat(n.argument)]);
    case 'AssignmentPattern': return N('BAssign', '', [pat(n.left), expr(n.right)]);
    default: return expr(n);
  }
}
const block = n => N('Block', '', n.body.map(stmt));
const opt = n => n ? expr(n) : '-';
function decl(n) { return N('Decl', n.kind, n.declarations.map(d => N('Dtor', '', [pat(d.id), opt(d.init)]))); }
const init = n => !n ? '-' : n.type === 'VariableDeclaration' ? decl(n) : N('Expr', '', [asPatExpr(n)]);
function stmt(n) {
  switch (n.type) {
    case 'EmptyStatement': return 'Empty';
    case 'DebuggerStatement': return 'Debugger';
    case 'ExpressionStatement': return N('Expr', '', [expr(n.expression)]);
    case 'VariableDeclaration': return decl(n);
    case 'ReturnStatement': return N('Return', '', [opt(n.argument)]);
    case 'BreakStatement': return N('Break', '', [n.label ? name(n.label) : '-']);
    case 'ContinueStatement': return N('Continue', '', [n.label ? name(n.label) : '-']);
    case 'ThrowStatement': return N('Throw', '', [expr(n.argument)]);
    case 'IfStatement': return N('If', '', [expr(n.test), stmt(n.consequent), n.alternate ? stmt(n.alternate) : '-']);
    case 'WhileStatement': return N('While', '', [expr(n.test), stmt(n.body)]);
    case 'DoWhileStatement': return N('Do', '', [stmt(n.body), expr(n.test)]);
    case 'ForStatement': return N('For', '', [init(n.init), opt(n.test), opt(n.update), stmt(n.body)]);
    case 'ForInStatement': return N('ForIn', '', [init(n.left), expr(n.right), stmt(n.body)]);
    case 'ForOfStatement': return N('ForOf', '', [init(n.left), expr(n.right), stmt(n.body)]);
    case 'TryStatement': return N('Try', '', [block(n.block), n.handler ? N('Catch', '', [n.handler.param ? pat(n.handler.param) : '?', block(n.handler.body)]) : '-', n.finalizer ? block(n.finalizer) : '-']);
    case 'BlockStatement': return block(n);
    case 'LabeledStatement': return N('Labeled', raw(n.label), [stmt(n.body)]);
    case 'FunctionDeclaration': return N('FnDecl', n.generator ? '*' : '', func(n));
    case 'ClassDeclaration': return N('ClassDecl', '', cls(n));
    case 'SwitchStatement': return N('Switch', '', [expr(n.discriminant), N('Block', '', n.cases.map(c => N('Case', '', [opt(c.test), L(c.consequent.map(stmt))])))]);
    case 'ImportDeclaration': return N('Import', raw(n.source).slice(1, -1), n.specifiers.map(s => s.type === 'ImportDefaultSpecifier' ? N('ImpDef', '', [name(s.local)]) : s.type === 'ImportNamespaceSpecifier' ? N('ImpNs', '', [name(s.local)]) : N('ImpSpec', '', [name(s.imported), name(s.local)])));
    default: return '?' + n.type;
  }
}
// early errors, which the model leaves out
const early = /already been declared|Unsyntactic|already declared|Duplicate|Argument name clash|Redefinition|not defined|Deleting|delete|Binding 'arguments'|'arguments'|'eval'|Assigning to|Invalid regular|'return' outside|'new.target'|Label|constructor|Octal|Private|duplicate|Escape sequence in keyword|rebinding|Binding (eval|arguments)|let is disallowed|Lexically|more than once|prototype/i;
let n = 0, bad = 0, earlyN = 0, un = 0, acc = 0;
rl.on('line', line => {
  let o; try { o = JSON.parse(line); } catch (e) { return; } n++;
  src = o.t;
  if (o.v === 'un') { un++; return; }
  let ast, err;
  try { ast = acorn.parse(src, { ecmaVersion: 2022, sourceType: 'module', allowReturnOutsideFunction: true, allowHashBang: false }); } catch (e) { err = e; }
  if (err && (o.v === 'ok' || !early.test(err.message) || /octal|delete/i.test(err.message))) try { ast = acorn.parse(src, { ecmaVersion: 2022, sourceType: 'script', allowReturnOutsideFunction: true, allowHashBang: false }); err = null; } catch (e) { }
  if (!(err instanceof SyntaxError) && err) { console.log('acorn failed', JSON.stringify(src), err.message); return; }
  if (err) {
    if (o.v === 'ok') { if (early.test(err.message)) { earlyN++; return; } if (bad++ < 200) console.log('MODEL ACCEPTS', JSON.stringify(src), err.message); }
    return;
  }
  if (o.v === 'rej') { if (bad++ < 200) console.log('MODEL REJECTS', JSON.stringify(src)); return; }
  acc++;
  const t = N('Program', '', ast.body.map(stmt));
  if (t !== o.tree && bad++ < 200) console.log('TREES DIFFER', JSON.stringify(src), '\n   model', o.tree, '\n   acorn', t);
});
rl.on('close', () => console.log(`${n} texts, ${acc} trees compared, ${earlyN} early errors, ${un} open, ${bad} differences`));
