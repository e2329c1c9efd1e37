// Loads pages of the web application and plays a user on them. Called through window.Plotly.toImage (page.py).
(function () {
  // ---- what stands for the chart library in the page: the calls that change the traces of a chart
  function chartLibrary(win) {
    const doc = win.document;
    const get = (gd) => typeof gd === "string" ? doc.getElementById(gd) : gd;
    const need = (gd) => { gd = get(gd); if (!gd || !Array.isArray(gd.data)) throw new Error("This element is not a Plotly plot"); return gd; };
    const P = (gd) => win.Promise.resolve(gd);
    const clear = (o) => o && typeof o === "object" ? o : {};
    function make(gd, data, layout, config) {
      gd = get(gd);
      if (!gd) throw new Error("No DOM element with id");
      if (data && !Array.isArray(data) && typeof data === "object") { layout = data.layout; data = data.data; }
      gd.data = Array.isArray(data) ? data : [];
      gd.layout = clear(layout);
      gd.classList.add("js-plotly-plot");
      return P(gd);
    }
    function indices(gd, ix) {
      if (typeof ix === "number") return [ix];
      if (!Array.isArray(ix) || !ix.length) return gd.data.map((_, i) => i);
      return ix;
    }
    const at = (gd, i) => i < 0 ? gd.data.length + i : i;
    function setPath(o, path, v) {
      const ks = path.replace(/\[(\d+)\]/g, ".$1").split(".");
      for (let i = 0; i < ks.length - 1; i++) { if (o[ks[i]] === undefined || o[ks[i]] === null) o[ks[i]] = {}; o = o[ks[i]]; }
      o[ks[ks.length - 1]] = v;
    }
    const same = (v, n) => Array.isArray(v) ? v[n % v.length] : v;
    const L = {
      version: "2.8.0",
      newPlot: make, react: make, plot: make,
      redraw: (gd) => P(need(gd)),
      addTraces(gd, traces, where) {
        gd = need(gd);
        if (traces === undefined) throw new Error("traces must be defined.");
        traces = (Array.isArray(traces) ? traces : [traces]).map((t) => Object.assign({}, t));
        if (where === undefined) { gd.data.push(...traces); return P(gd); }
        where = Array.isArray(where) ? where : [where];
        if (where.length !== traces.length) throw new Error("if indices is specified, traces.length must equal indices.length");
        const n = gd.data.length + traces.length, out = new Array(n);
        traces.forEach((t, i) => { out[where[i] < 0 ? n + where[i] : where[i]] = t; });
        let j = 0;
        for (let i = 0; i < n; i++) if (out[i] === undefined) out[i] = gd.data[j++];
        gd.data.splice(0, gd.data.length, ...out);
        return P(gd);
      },
      deleteTraces(gd, ix) {
        gd = need(gd);
        if (ix === undefined) throw new Error("indices must be an integer or array of integers.");
        const drop = new Set((Array.isArray(ix) ? ix : [ix]).map((i) => at(gd, i)));
        const kept = gd.data.filter((_, i) => !drop.has(i));
        gd.data.splice(0, gd.data.length, ...kept);
        return P(gd);
      },
      moveTraces(gd, from, to) {
        gd = need(gd);
        from = (Array.isArray(from) ? from : [from]).map((i) => at(gd, i));
        const moved = from.map((i) => gd.data[i]);
        const rest = gd.data.filter((_, i) => from.indexOf(i) < 0);
        if (to === undefined) rest.push(...moved);
        else { const n = gd.data.length; (Array.isArray(to) ? to : [to]).map((i) => i < 0 ? n + i : i)
          .map((i, k) => [i, moved[k]]).sort((a, b) => a[0] - b[0]).forEach(([i, t]) => rest.splice(i, 0, t)); }
        gd.data.splice(0, gd.data.length, ...rest);
        return P(gd);
      },
      restyle(gd, a, v, ix) {
        gd = need(gd);
        let o = a;
        if (typeof a === "string") { o = {}; o[a] = v; } else ix = v;
        const is = indices(gd, ix);
        for (const k in clear(o)) is.forEach((i, n) => setPath(gd.data[at(gd, i)], k, same(o[k], n)));
        return P(gd);
      },
      relayout(gd, a, v) {
        gd = need(gd);
        let o = a;
        if (typeof a === "string") { o = {}; o[a] = v; }
        for (const k in clear(o)) setPath(gd.layout, k, o[k]);
        return P(gd);
      },
      update(gd, t, l, ix) {
        gd = get(gd);
        const is = indices(gd, ix);        // fails without a chart, as the library does
        if (t && !Array.isArray(t)) for (const k in clear(t)) is.forEach((i, n) => setPath(gd.data[at(gd, i)], k, same(t[k], n)));
        if (l && !Array.isArray(l)) for (const k in clear(l)) setPath(gd.layout, k, l[k]);
        return P(gd);
      },
      purge(gd) { gd = get(gd); delete gd.data; delete gd.layout; gd.classList.remove("js-plotly-plot"); return gd; },
      Plots: { resize: (gd) => P(get(gd)) },
    };
    // drawn: how often something was drawn
    for (const k of Object.keys(L)) if (typeof L[k] === "function") { const f = L[k]; L[k] = (...a) => { win.__drawn = (win.__drawn || 0) + 1; return f(...a); }; }
    return L;
  }

  const KINDS = ["Materials", "Udls", "LineLoads"];
  const sleep = (ms) => new Promise((ok) => setTimeout(ok, ms));

  async function load(html, files, width) {
    const old = document.querySelector("iframe.page");
    if (old) old.remove();
    const frame = document.createElement("iframe");
    frame.className = "page";
    frame.style.cssText = `width:${width}px;height:900px;border:0`;
    const urls = [];
    // scripts of the site as files of their own, others (the network) left out
    html = html.replace(/(<script\b[^>]*?)\ssrc\s*=\s*(["'])(.*?)\2([^>]*)>/g, (m, a, q, src, b) => {
      if (files[src] === undefined) return a + b + ' data-dropped="' + src + '">';
      const u = URL.createObjectURL(new Blob([files[src]], { type: "text/javascript" }));
      urls.push(u);
      return a + ' src="' + u + '"' + b + ">";
    });
    html = html.replace(/<link\b[^>]*>/g, "");
    const errors = [];
    window.__hook = (win) => {
      win.Plotly = chartLibrary(win);
      Object.defineProperty(win, "innerWidth", { get: () => frame.__width, configurable: true });
      win.addEventListener("error", (e) => errors.push(String(e.message)));
      win.addEventListener("unhandledrejection", (e) => errors.push(String(e.reason)));
      win.console.log = () => {};
      win.__submits = 0;
      win.addEventListener("submit", (e) => { if (!e.defaultPrevented) win.__submits++; e.preventDefault(); });
      // links are not followed
      win.addEventListener("click", (e) => { const a = e.target.closest && e.target.closest("a[href]"); if (a) e.preventDefault(); });
    };
    frame.__width = width;
    html = html.replace(/<head>/i, "<head><script>parent.__hook(window)</scr" + "ipt>");
    frame.srcdoc = html;
    await new Promise((ok) => { frame.onload = ok; document.body.appendChild(frame); });
    urls.forEach((u) => URL.revokeObjectURL(u));
    return { frame, win: frame.contentWindow, doc: frame.contentDocument, errors };
  }

  function rowsOf(p, kind) { return Array.from(p.doc.getElementsByClassName("formset-row-" + kind)); }

  function fire(el, type) { el.dispatchEvent(new el.ownerDocument.defaultView.Event(type, { bubbles: true })); }

  // a press of the mouse; what a click on a form's button does, it does
  function press(el) {
    const M = el.ownerDocument.defaultView.MouseEvent;
    ["mousedown", "mouseup"].forEach((t) => el.dispatchEvent(new M(t, { bubbles: true, cancelable: true })));
    el.click();
  }

  function give(el, v) {
    if (el.type === "checkbox") { if (el.checked !== (v === "on")) press(el); return; }
    press(el);
    const old = el.value;
    el.value = v;
    if (el.value === old) return;
    fire(el, "input");
    fire(el, "change");
  }

  function play(p, e) {
    const d = p.doc;
    if (e.op === "add") press(d.getElementById("add-" + e.kind + "-form"));
    else if (e.op === "del") press(rowsOf(p, e.kind)[e.i - 1].getElementsByClassName("delete-" + e.kind + "-form")[0]);
    else if (e.op === "row") {       // the field f of the i-th row shown
      const all = Array.from(rowsOf(p, e.kind)[e.i - 1].querySelectorAll("input,select,textarea")).filter((x) => x.type !== "hidden");
      give(all.find((x) => x.name.endsWith("-" + e.f)), e.v);
    } else if (e.op === "set") give(d.getElementsByName(e.f)[0], e.v);
    else if (e.op === "drag") {      // a slider on its way: no change yet
      const el = d.getElementsByName(e.f)[0];
      el.value = e.v;
      fire(el, "input");
    } else if (e.op === "drop") {
      fire(d.getElementsByName(e.f)[0], "change");
    } else if (e.op === "click") {   // on something that is no control
      const form = d.getElementById("mainform"), all = (q) => Array.from(form.querySelectorAll(q));
      const on = e.at === "cell" ? KINDS.map((k) => rowsOf(p, k)[0].querySelector("td")) : e.at === "head" ? all("th") :
        e.at === "label" ? all("label").map((x) => x.parentElement) : e.at === "tab" ? all('[role="tab"]') :
        e.at === "chart" ? [d.getElementById("plotly_js")] : [form, d.body];
      on.forEach(press);
    } else if (e.op === "ask") {
      press(d.getElementById(e.what + "_button"));
    } else if (e.op === "size") {
      p.frame.__width = e.w;
      p.frame.style.width = e.w + "px";
      fire2(p.win, "resize");
    }
  }
  function fire2(win, type) { win.dispatchEvent(new win.Event(type)); }

  function seen(el) {
    for (let x = el; x && x.nodeType === 1; x = x.parentElement)
      if (x.ownerDocument.defaultView.getComputedStyle(x).display === "none") return false;
    return true;
  }
  const eq = (a, b) => Array.isArray(a) && Array.isArray(b) && a.length === b.length && a.every((v, i) => v === b[i]);
  const json = (x) => JSON.stringify(x);

  function chart(p) {
    const gd = p.doc.getElementById("plotly_js");
    if (!gd || !Array.isArray(gd.data)) return { made: false, t: [] };
    const t = [];
    let nb = 0;
    gd.data.forEach((tr) => {
      if (tr.visible === false || tr.visible === "legendonly") return;
      const k = p.base.indexOf(json(tr));
      if (nb < p.base.length && p.base[nb] === json(tr)) { nb++; t.push({ b: nb, k: 0, h: 0, c: "" }); return; }
      if (k >= 0) { t.push({ b: k + 1, k: 0, h: 0, c: "" }); return; }
      const who = [];
      p.search.forEach((s, i) => { if (eq(Array.from(tr.x || []), s.x) && eq(Array.from(tr.y || []), s.y)) who.push(i + 1); });
      // equal lines: the one not yet shown
      const fresh = who.find((i) => !t.some((q) => q.k === i));
      const c = (tr.line && tr.line.color) || (tr.marker && tr.marker.color) || "";
      t.push({ b: 0, k: fresh || who[0] || 0, h: Number(tr.hovertemplate) || 0, c: String(c) });
    });
    return { made: true, t };
  }

  function look(p) {
    const d = p.doc, form = d.getElementById("mainform");
    const o = { errors: p.errors.splice(0), submits: p.win.__submits };
    p.win.__submits = 0;
    // the browser does not send a form it finds incomplete
    o.complete = form.noValidate || form.matches(":valid");
    o.post = Array.from(new p.win.FormData(form).entries()).filter(([k]) => k !== "csrfmiddlewaretoken").map(([k, v]) => [k, String(v)]);
    const a = d.getElementById("analysis_button"), r = d.getElementById("pdf_button");
    o.analyse = !a.disabled;
    const busy = d.getElementById("loading-spinner");
    o.busy = !!busy && seen(busy);
    o.pdf = r.getAttribute("href") || "";
    o.dead = r.classList.contains("disabled");
    o.hidden = Array.from(form.querySelectorAll("input,select,textarea")).filter((x) => x.type !== "hidden" && x.name && !seen(x)).map((x) => x.name);
    o.rows = {};
    KINDS.forEach((k) => { o.rows[k] = rowsOf(p, k).filter(seen).length; });
    o.labels = Array.from(form.querySelectorAll('input[type="range"]')).map((x) => [x.name, x.parentElement.textContent.trim()]);
    const m = d.getElementById("mobile_screen_menus");
    o.menus = !!m && seen(m);
    o.soils = m ? Array.from(d.querySelectorAll("#mobile_soil_table tr")).map((tr) => Array.from(tr.children).map((td) => td.style.backgroundColor || td.textContent)) : [];
    o.ends = m ? Array.from(m.querySelectorAll(".row")).map((x) => x.textContent.trim().split(/\s+/)).flat() : [];
    o.scale = m ? Array.from(d.querySelectorAll("#FOS_legend td")).map((td) => td.style.backgroundColor) : [];
    o.width = d.getElementById("plotly_js") && d.getElementById("plotly_js").layout ? Number(d.getElementById("plotly_js").layout.width) || 0 : 0;
    o.notes = (() => { const l = d.getElementById("plotly_js") && d.getElementById("plotly_js").layout; return l ? (l.annotations || []).length + (l.shapes || []).length : -1; })();
    // unchanged charts are not repeated
    o.chart = null;
    if (p.drawn !== p.win.__drawn || p.lastChart === undefined) {
      const c = chart(p), key = json(c);
      p.drawn = p.win.__drawn;
      if (key !== p.lastChart) o.chart = c;
      p.lastChart = key;
    }
    return o;
  }

  // kaleido addresses the document that was made last: one that knows how to call back
  function landing() {
    const all = Array.from(document.querySelectorAll("iframe.landing"));
    all.slice(0, -1).forEach((x) => x.remove());
    const f = document.createElement("iframe");
    f.className = "landing";
    document.body.appendChild(f);
    const here = (x) => x === undefined ? x : JSON.parse(JSON.stringify(x));
    f.contentWindow.kaleido_scopes = { plotly: (...a) => window.kaleido_scopes.plotly(...a.map(here)) };
  }

  async function run(job) {
    if (job.files) window.__files = Object.assign(window.__files || {}, job.files);
    if (job.pages) window.__pages = Object.assign(window.__pages || {}, job.pages);
    const out = [];
    for (const play1 of job.plays || []) {
      const p = await load(window.__pages[play1.page], window.__files, play1.width);
      try {
        p.search = JSON.parse(p.doc.getElementById("search").textContent);
        p.base = JSON.parse(JSON.parse(p.doc.getElementById("plot_json").textContent)).data.map(json);
      } catch (err) { p.search = []; p.base = []; }
      const obs = [look(p)];
      obs[0].css = (play1.css || []).map((c) => { const x = document.createElement("i"); x.style.backgroundColor = c; return x.style.backgroundColor; });
      for (const e of play1.ops) {
        let fail = "";
        try { play(p, e); } catch (err) { fail = String(err); }
        await Promise.resolve();
        if (e.wait) await sleep(e.wait);
        const o = look(p);
        if (fail) o.fail = fail;
        obs.push(o);
      }
      out.push(obs);
    }
    landing();
    return out;
  }

  window.Plotly = {
    version: "2.8.0",
    toImage: (gd) => run(gd.data[0].job).then((r) => JSON.stringify({ ok: r }), (err) => JSON.stringify({ err: String(err && err.stack || err) })),
  };
})();
