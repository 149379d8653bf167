function classNames(...args) {
  let out = [];
  for (let a of args) {
    if (!a) continue;
    if (typeof a === "string" || typeof a === "number") out.push(a);
    else if (Array.isArray(a)) out.push(classNames(...a));
    else for (let k in a) if (a[k]) out.push(k);
  }
  return out.join(" ");
}
module.exports = classNames;
