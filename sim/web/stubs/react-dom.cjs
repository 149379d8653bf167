const { moduleWith } = require("./permissive.js");
const D = {
  createRoot(container) {
    let gone = false;
    return {
      render(element) {
        if (gone) throw new Error("Cannot update an unmounted root.");
        container.reactElement = element;
      },
      unmount() {
        gone = true;
        container.reactElement = undefined;
      }
    };
  },
  flushSync: f => f()
};
module.exports = moduleWith({ ...D, default: D });
