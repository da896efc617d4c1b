// The Porter stemmer of elasticlunr.js 0.9.5 (lib/elasticlunr_stemmer.js), written down as
// the regular-expression program it is.  Used only to cross-validate the Rust oracle
// (harness/src/oracle/porter.rs):  node elasticlunr_stemmer.js < words.txt > stems.txt
'use strict';
const step2list = {
  ational: 'ate', tional: 'tion', enci: 'ence', anci: 'ance', izer: 'ize', bli: 'ble', alli: 'al',
  entli: 'ent', eli: 'e', ousli: 'ous', ization: 'ize', ation: 'ate', ator: 'ate', alism: 'al',
  iveness: 'ive', fulness: 'ful', ousness: 'ous', aliti: 'al', iviti: 'ive', biliti: 'ble', logi: 'log',
};
const step3list = { icate: 'ic', ative: '', alize: 'al', iciti: 'ic', ical: 'ic', ful: '', ness: '' };
const c = '[^aeiou]', v = '[aeiouy]', C = c + '[^aeiouy]*', V = v + '[aeiou]*';
const re_mgr0 = new RegExp('^(' + C + ')?' + V + C);
const re_mgr1 = new RegExp('^(' + C + ')?' + V + C + V + C);
const re_meq1 = new RegExp('^(' + C + ')?' + V + C + '(' + V + ')?$');
const re_s_v = new RegExp('^(' + C + ')?' + v);
const re_1a = /^(.+?)(ss|i)es$/, re2_1a = /^(.+?)([^s])s$/, re_1b = /^(.+?)eed$/, re2_1b = /^(.+?)(ed|ing)$/;
const re_1b_2 = /.$/, re2_1b_2 = /(at|bl|iz)$/, re3_1b_2 = new RegExp('([^aeiouylsz])\\1$');
const re4_1b_2 = new RegExp('^' + C + v + '[^aeiouwxy]$'), re_1c = /^(.+?[^aeiou])y$/;
const re_2 = /^(.+?)(ational|tional|enci|anci|izer|bli|alli|entli|eli|ousli|ization|ation|ator|alism|iveness|fulness|ousness|aliti|iviti|biliti|logi)$/;
const re_3 = /^(.+?)(icate|ative|alize|iciti|ical|ful|ness)$/;
const re_4 = /^(.+?)(al|ance|ence|er|ic|able|ible|ant|ement|ment|ent|ou|ism|ate|iti|ous|ive|ize)$/;
const re2_4 = /^(.+?)(s|t)(ion)$/, re_5 = /^(.+?)e$/, re_5_1 = /ll$/, re3_5 = new RegExp('^' + C + v + '[^aeiouwxy]$');
function stem(w) {
  if (w.length < 3) return w;
  const firstch = w.substr(0, 1);
  if (firstch === 'y') w = firstch.toUpperCase() + w.substr(1);
  let fp;
  if (re_1a.test(w)) w = w.replace(re_1a, '$1$2');
  else if (re2_1a.test(w)) w = w.replace(re2_1a, '$1$2');
  if ((fp = re_1b.exec(w))) { if (re_mgr0.test(fp[1])) w = w.replace(re_1b_2, ''); }
  else if ((fp = re2_1b.exec(w))) {
    const st = fp[1];
    if (re_s_v.test(st)) {
      w = st;
      if (re2_1b_2.test(w)) w = w + 'e';
      else if (re3_1b_2.test(w)) w = w.replace(re_1b_2, '');
      else if (re4_1b_2.test(w)) w = w + 'e';
    }
  }
  if ((fp = re_1c.exec(w))) w = fp[1] + 'i';
  if ((fp = re_2.exec(w)) && re_mgr0.test(fp[1])) w = fp[1] + step2list[fp[2]];
  if ((fp = re_3.exec(w)) && re_mgr0.test(fp[1])) w = fp[1] + step3list[fp[2]];
  if ((fp = re_4.exec(w))) { if (re_mgr1.test(fp[1])) w = fp[1]; }
  else if ((fp = re2_4.exec(w))) { const st = fp[1] + fp[2]; if (re_mgr1.test(st)) w = st; }
  if ((fp = re_5.exec(w))) { const st = fp[1]; if (re_mgr1.test(st) || (re_meq1.test(st) && !re3_5.test(st))) w = st; }
  if (re_5_1.test(w) && re_mgr1.test(w)) w = w.replace(re_1b_2, '');
  if (firstch === 'y') w = firstch.toLowerCase() + w.substr(1);
  return w;
}
const lines = require('fs').readFileSync(0, 'utf8').split('\n');
if (lines[lines.length - 1] === '') lines.pop();
process.stdout.write(lines.map((l) => stem(l)).join('\n') + '\n');
