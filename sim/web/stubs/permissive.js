// A value that can be called, constructed and read in any way: stands for libraries whose behaviour no property depends on.
function make() {
  let f = function () {};
  return new Proxy(f, {
    get: (t, k) => (k === Symbol.toPrimitive ? () => "" : k === Symbol.iterator ? function* () {} : k === "then" ? undefined : k === "prototype" ? t.prototype : anything),
    apply: () => anything,
    construct: () => anything,
    set: () => true,
    has: () => true
  });
}
const anything = make();
// named imports of a module are looked up on its prototype
export const moduleWith = own => {
  let m = Object.create(new Proxy({}, { get: (_, k) => (typeof k === "symbol" || k === "then" ? undefined : anything), has: () => true }));
  Object.defineProperty(m, "__esModule", { value: true });
  Object.defineProperties(m, Object.getOwnPropertyDescriptors(own));
  if (!("default" in own)) Object.defineProperty(m, "default", { value: own, enumerable: true });
  return m;
};
export { anything };
