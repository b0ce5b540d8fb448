// Loads the client's TypeScript as it is, or with its operators rewritten so that they accept symbolic values.
'use strict';
const fs = require('fs'), path = require('path');
const ts = require('/opt/veriftools/node/node_modules/typescript');
const Mod = require('./models.js');
const T = require('./sym.js');
const F = ts.factory;
const { SyntaxKind: K } = ts;

const BIN = new Map([[K.PlusToken, '+'], [K.MinusToken, '-'], [K.AsteriskToken, '*'], [K.SlashToken, '/'], [K.PercentToken, '%'], [K.AsteriskAsteriskToken, '**'],
  [K.AmpersandToken, '&'], [K.BarToken, '|'], [K.CaretToken, '^'], [K.LessThanLessThanToken, '<<'], [K.GreaterThanGreaterThanToken, '>>'], [K.GreaterThanGreaterThanGreaterThanToken, '>>>'],
  [K.LessThanToken, '<'], [K.GreaterThanToken, '>'], [K.LessThanEqualsToken, '<='], [K.GreaterThanEqualsToken, '>='],
  [K.EqualsEqualsToken, '=='], [K.ExclamationEqualsToken, '!='], [K.EqualsEqualsEqualsToken, '==='], [K.ExclamationEqualsEqualsToken, '!==']]);
const ASSIGN = new Map([[K.PlusEqualsToken, '+'], [K.MinusEqualsToken, '-'], [K.AsteriskEqualsToken, '*'], [K.SlashEqualsToken, '/'], [K.PercentEqualsToken, '%'],
  [K.AmpersandEqualsToken, '&'], [K.BarEqualsToken, '|'], [K.CaretEqualsToken, '^'], [K.LessThanLessThanEqualsToken, '<<'], [K.GreaterThanGreaterThanEqualsToken, '>>'], [K.GreaterThanGreaterThanGreaterThanEqualsToken, '>>>']]);

const $c = (m, ...args) => F.createCallExpression(F.createPropertyAccessExpression(F.createIdentifier('$'), m), undefined, args);
const str = (s) => F.createStringLiteral(s);
const thunk = (e) => F.createArrowFunction(undefined, undefined, [], undefined, F.createToken(K.EqualsGreaterThanToken), F.createParenthesizedExpression(e));
function suspends(n) {
  let r = false;
  const go = (x) => { if (r || ts.isFunctionLike(x)) return; if (ts.isYieldExpression(x) || ts.isAwaitExpression(x)) { r = true; return; } ts.forEachChild(x, go); };
  go(n);
  return r;
}
function transformer(ctx) {
  const v = (n) => ts.visitNode(n, visit);
  const test = (e) => $c('t', v(e));
  function visit(n) {
    if (ts.isBinaryExpression(n)) {
      const op = n.operatorToken.kind;
      if (BIN.has(op)) return $c('bin', str(BIN.get(op)), v(n.left), v(n.right));
      if (ASSIGN.has(op)) return F.createAssignment(v(n.left), $c('bin', str(ASSIGN.get(op)), v(n.left), v(n.right)));
      const lg = op === K.AmpersandAmpersandToken ? 'and' : op === K.BarBarToken ? 'or' : op === K.QuestionQuestionToken ? 'nn' : null;
      if (lg && !suspends(n.right)) return $c(lg, v(n.left), thunk(v(n.right)));
    }
    if (ts.isPrefixUnaryExpression(n)) {
      if (n.operator === K.PlusPlusToken || n.operator === K.MinusMinusToken)
        return F.createParenthesizedExpression(F.createAssignment(v(n.operand), $c('bin', str(n.operator === K.PlusPlusToken ? '+' : '-'), v(n.operand), F.createNumericLiteral(1))));
      if (ts.isNumericLiteral(n.operand)) return n;
      return $c('un', str(n.operator === K.ExclamationToken ? '!' : n.operator === K.MinusToken ? '-' : n.operator === K.TildeToken ? '~' : '+'), v(n.operand));
    }
    if (ts.isPostfixUnaryExpression(n)) {
      const up = n.operator === K.PlusPlusToken;
      const set = F.createParenthesizedExpression(F.createAssignment(v(n.operand), $c('bin', str(up ? '+' : '-'), v(n.operand), F.createNumericLiteral(1))));
      return $c('bin', str(up ? '-' : '+'), set, F.createNumericLiteral(1));
    }
    if (ts.isTypeOfExpression(n) && !ts.isIdentifier(n.expression)) return $c('un', str('typeof'), v(n.expression));
    if (ts.isConditionalExpression(n)) return F.updateConditionalExpression(n, test(n.condition), n.questionToken, v(n.whenTrue), n.colonToken, v(n.whenFalse));
    if (ts.isIfStatement(n)) return F.updateIfStatement(n, test(n.expression), v(n.thenStatement), n.elseStatement && v(n.elseStatement));
    if (ts.isWhileStatement(n)) return F.updateWhileStatement(n, test(n.expression), v(n.statement));
    if (ts.isDoStatement(n)) return F.updateDoStatement(n, v(n.statement), test(n.expression));
    if (ts.isForStatement(n)) return F.updateForStatement(n, n.initializer && v(n.initializer), n.condition && test(n.condition), n.incrementor && v(n.incrementor), v(n.statement));
    if (ts.isSwitchStatement(n)) {
      const cl = n.caseBlock.clauses, cases = cl.filter(ts.isCaseClause);
      let i = 0;
      const out = cl.map((c) => (ts.isCaseClause(c) ? F.createCaseClause(F.createNumericLiteral(i++), c.statements.map(v)) : F.createDefaultClause(c.statements.map(v))));
      return F.createSwitchStatement($c('sw', v(n.expression), F.createArrayLiteralExpression(cases.map((c) => thunk(v(c.expression))))), F.createCaseBlock(out));
    }
    if (ts.isElementAccessExpression(n) && !n.questionDotToken && !ts.isOptionalChain(n)) return F.createElementAccessExpression(v(n.expression), $c('key', v(n.argumentExpression)));
    if (ts.isElementAccessExpression(n)) return F.updateElementAccessChain ? F.createElementAccessChain(v(n.expression), n.questionDotToken, $c('key', v(n.argumentExpression))) : n;
    if (ts.isCallExpression(n) && !ts.isOptionalChain(n) && ts.isPropertyAccessExpression(n.expression) && n.expression.expression.kind !== K.SuperKeyword)
      return $c('call', v(n.expression.expression), str(n.expression.name.text), ...n.arguments.map(v));
    return ts.visitEachChild(n, visit, ctx);
  }
  return (sf) => ts.visitNode(sf, visit);
}

/** The connection of the jobs answers at once: `await x` is `x`. Promise.all and Promise.resolve likewise. */
const SyncPromise = { all: (l) => [...l], resolve: (x) => x };
function sync(ctx) {
  const visit = (n) => {
    n = ts.visitEachChild(n, visit, ctx);
    if (ts.isAwaitExpression(n)) return F.createParenthesizedExpression(n.expression);
    const plain = (l) => l && l.filter((m) => m.kind !== K.AsyncKeyword);
    if (!n.modifiers || n.asteriskToken || !n.modifiers.some((m) => m.kind === K.AsyncKeyword)) return n;
    if (ts.isMethodDeclaration(n)) return F.updateMethodDeclaration(n, plain(n.modifiers), n.asteriskToken, n.name, n.questionToken, n.typeParameters, n.parameters, undefined, n.body);
    if (ts.isFunctionDeclaration(n)) return F.updateFunctionDeclaration(n, plain(n.modifiers), n.asteriskToken, n.name, n.typeParameters, n.parameters, undefined, n.body);
    if (ts.isFunctionExpression(n)) return F.updateFunctionExpression(n, plain(n.modifiers), n.asteriskToken, n.name, n.typeParameters, n.parameters, undefined, n.body);
    if (ts.isArrowFunction(n)) return F.updateArrowFunction(n, plain(n.modifiers), n.typeParameters, n.parameters, undefined, n.equalsGreaterThanToken, n.body);
    return n;
  };
  return (sf) => ts.visitNode(sf, visit);
}

function load(srcDir, symbolic) {
  const cache = new Map();
  const ext = { borsh: Mod.borsh, 'bn.js': Mod.BN, '@solana/web3.js': Mod.web3 };
  const req = (from) => (name) => {
    if (ext[name]) return ext[name];
    if (!name.startsWith('.')) throw new Error('module ' + name);
    let f = path.resolve(path.dirname(from), name);
    if (fs.existsSync(f + '.ts')) f += '.ts';
    else if (fs.existsSync(path.join(f, 'index.ts'))) f = path.join(f, 'index.ts');
    return one(f);
  };
  const one = (f) => {
    if (cache.has(f)) return cache.get(f).exports;
    const m = { exports: {} };
    cache.set(f, m);
    let js = ts.transpileModule(fs.readFileSync(f, 'utf8'), {
      fileName: f,
      compilerOptions: { target: ts.ScriptTarget.ES2022, module: ts.ModuleKind.CommonJS, esModuleInterop: true, useDefineForClassFields: false },
      transformers: { before: [sync] },
    }).outputText;
    if (symbolic) {
      const sf = ts.createSourceFile(f + '.js', js, ts.ScriptTarget.ES2022, true, ts.ScriptKind.JS);
      const r = ts.transform(sf, [transformer]);
      js = ts.createPrinter().printFile(r.transformed[0]);
    }
    if (symbolic) new Function('require', 'module', 'exports', '$', 'Buffer', 'Math', 'Array', 'Number', 'Promise', js)(req(f), m, m.exports, Mod.$, Mod.Buf, Mod.sMath, Mod.sArray, Mod.sNumber, SyncPromise);
    else new Function('require', 'module', 'exports', 'Promise', js)(req(f), m, m.exports, SyncPromise);
    return m.exports;
  };
  const out = { key: (nodes) => new Mod.web3.PublicKey(nodes.map((n) => (symbolic ? T.num(T.zext(n, T.W)) : Number(T.evaluate(n, new Map()))))) };
  for (const f of ['slab', 'event_queue', 'market_state', 'utils']) if (fs.existsSync(path.join(srcDir, f + '.ts'))) Object.assign(out, one(path.join(srcDir, f + '.ts')));
  return out;
}
module.exports = { load };
