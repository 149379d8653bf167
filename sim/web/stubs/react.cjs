// Elements are made and kept, not evaluated: what a component draws from its properties is no subject here.
const { moduleWith } = require("./permissive.js");
const Fragment = Symbol("Fragment");
const createElement = (type, props, ...children) => ({ type, props: { ...props, ...(children.length ? { children } : {}) } });
class Component {}
const R = {
  Fragment, createElement, Component, PureComponent: Component, StrictMode: Fragment, Suspense: Fragment,
  createContext: v => { let c = { _value: v }; c.Provider = { context: c }; c.Consumer = { context: c }; return c; },
  useState: v => [typeof v === "function" ? v() : v, () => {}], useReducer: (_, v) => [v, () => {}], useEffect: () => {}, useLayoutEffect: () => {},
  useRef: v => ({ current: v }), createRef: () => ({ current: null }), useContext: c => c._value, useMemo: f => f(), useCallback: f => f, useId: () => "id",
  memo: x => x, forwardRef: x => x, isValidElement: x => !!x && "props" in x
};
module.exports = moduleWith({ ...R, default: R });
