// Runs the script of HTML reports on a minimal stand-in for React.
const ts = require('/opt/veriftools/node/node_modules/typescript');
const vm = require('vm');
const cache = new Map();
function compile(src) {
  if (!cache.has(src)) {
    cache.set(src, new vm.Script(ts.transpileModule(src, {compilerOptions: {jsx: ts.JsxEmit.React, target: ts.ScriptTarget.ES2020, module: ts.ModuleKind.None}}).outputText));
  }
  return cache.get(src);
}
function run(page) {
  let top = null;
  function render(el) {
    if (el === null || el === undefined || el === false || el === true) return [];
    if (Array.isArray(el)) return el.flatMap(render);
    if (typeof el !== 'object') return [String(el)];
    if (typeof el.type === 'function') {
      const c = new el.type(el.props);
      if (c.getInitialState) c.state = c.getInitialState();
      if (c.componentWillMount) c.componentWillMount();
      return render(c.render());
    }
    const props = el.props || {};
    return [{tag: el.type, cls: props.className || '', kids: render(props.children)}];
  }
  const React = {
    createClass(spec) {
      function C(props) {
        this.props = props; this.state = null;
        for (const k of Object.keys(spec)) if (typeof spec[k] === 'function') this[k] = spec[k].bind(this);
        this.setState = (s) => { this.state = Object.assign({}, this.state, s); };
      }
      return C;
    },
    createElement(type, props, ...children) {
      const p = Object.assign({}, props || {});
      if (children.length) p.children = children;
      return {type, props: p};
    }
  };
  const ReactDOM = { render(el) { top = el; }, findDOMNode() { return {}; } };
  const ctx = vm.createContext({React, ReactDOM, data: page.data, document: {getElementById() { return {}; }}, hljs: {highlightElement() {}}, console});
  try {
    compile(page.script).runInContext(ctx);
    const tree = render(top);
    const text = (n) => typeof n === 'string' ? n : n.kids.map(text).join('');
    const find = (n, f, out) => { if (typeof n !== 'string') { if (f(n)) out.push(n); n.kids.forEach((k) => find(k, f, out)); } return out; };
    const has = (n, c) => n.cls.split(/\s+/).includes(c);
    const cards = [];
    tree.forEach((t) => find(t, (n) => has(n, 'issue') && has(n, 'box'), cards));
    return {cards: cards.map((c) => {
      const tags = {};
      find(c, (n) => has(n, 'tags'), []).forEach((t) => { const s = find(t, (n) => n.tag === 'span', []); tags[text(s[0])] = text(s[1]); });
      return {strong: text(find(c, (n) => n.tag === 'strong', [])[0]), p: text(find(c, (n) => n.tag === 'p', [])[0]), tags,
              code: text(find(c, (n) => n.tag === 'code', [])[0])};
    })};
  } catch (e) { return {error: String(e && e.stack || e).slice(0, 400)}; }
}
let buf = '';
process.stdin.on('data', (d) => buf += d).on('end', () => { process.stdout.write(JSON.stringify(JSON.parse(buf).map(run))); });
