'use strict';
// The module of a property, with the phases every module of its kind gets.
module.exports = id => { const P = require('./props/' + id + '.js'); return P.scale ? require('./scale.js').extend(P) : P; };
