// The URL platform classes as far as the code under verification uses them: an assumed contract on the browser,
// written over uninterpreted parsing functions (url_bad, url_rest, url_search, url_hash, qs_parse and their inverses
// url_text, qs_print; the laws that relate them are in ../fold.mjs). It is not code of the repository.
export class URLSearchParams {
  list: string[][];
  changed = false;
  constructor(init?: any) {
    if (init === undefined || init === null) this.list = [];
    else if (typeof init === 'string') this.list = as(uninterp('qs_parse', 'Seq', init), 'string[][]').slice();
    else this.list = Object.entries(init);
  }
  has(name: string) { return this.list.some((p) => p[0] === name); }
  get(name: string) { const found = this.list.find((p) => p[0] === name); return found ? found[1] : null; }
  getAll(name: string) { return this.list.filter((p) => p[0] === name).map((p) => p[1]); }
  append(name: string, value: string) { this.changed = true; this.list.push([name, value]); }
  delete(name: string) { this.changed = true; this.list = this.list.filter((p) => p[0] !== name); }
  set(name: string, value: string) {
    this.changed = true;
    const i = this.list.findIndex((p) => p[0] === name);
    this.list = i < 0 ? [...this.list, [name, value]] : [...this.list.slice(0, i), [name, value], ...this.list.slice(i + 1).filter((p) => p[0] !== name)];
  }
  forEach(callback: (value: string, name: string) => void) { this.list.forEach((p) => callback(p[1], p[0])); }
  entries() { return this.list; }
  keys() { return this.list.map((p) => p[0]); }
  values() { return this.list.map((p) => p[1]); }
  toString() { return this.list.length === 0 ? '' : uninterp('qs_print', 'String', this.list); }
}
export class URL {
  rest: string;
  rawSearch: string;
  hashText: string;
  searchParams: URLSearchParams;
  constructor(text: string, base?: string) {
    const full = base === undefined ? `${text}` : uninterp('url_resolve', 'String', `${text}`, `${base}`);
    if (uninterp('url_bad', 'Bool', full)) throw new TypeError('Invalid URL');
    this.rest = uninterp('url_rest', 'String', full);
    this.rawSearch = uninterp('url_search', 'String', full);
    this.hashText = uninterp('url_hash', 'String', full);
    this.searchParams = new URLSearchParams(this.rawSearch);
  }
  get search() { return !this.searchParams.changed ? this.rawSearch : this.searchParams.list.length === 0 ? '' : uninterp('qs_print', 'String', this.searchParams.list); }
  set search(v: string) { this.rawSearch = v === '' ? '' : uninterp('url_search_set', 'String', v); this.searchParams = new URLSearchParams(this.rawSearch); }
  get hash() { return this.hashText; }
  set hash(v: string) { this.hashText = v === '' ? '' : uninterp('url_hash_set', 'String', v); }
  get origin() { return uninterp('url_origin', 'String', this.rest); }
  get protocol() { return uninterp('url_protocol', 'String', this.rest); }
  get host() { return uninterp('url_host', 'String', this.rest); }
  get hostname() { return uninterp('url_hostname', 'String', this.rest); }
  get pathname() { return uninterp('url_pathname', 'String', this.rest); }
  get href() { return uninterp('url_text', 'String', this.rest, this.search, this.hashText); }
  toString() { return uninterp('url_text', 'String', this.rest, this.search, this.hashText); }
}
