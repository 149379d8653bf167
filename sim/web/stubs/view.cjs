module.exports = require("./permissive.js").moduleWith(require("./view.js"));
