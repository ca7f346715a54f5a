WEBJS = ["rsm/static/onload.js", "rsm/static/libraries.js", "rsm/static/icons.js", "rsm/static/handrails.js", "rsm/static/keyboard.js", "rsm/static/minimap.js", "rsm/static/tooltips.js"]
NOJS = "The test suite never runs the page's scripts; "

P("W01", "The page starts up with whatever arrives",
  "When a published page opens, each of its facilities (icons, collapsing, menus, keyboard, minimap, tooltips, mathematics, algorithms) is set up exactly once and works as soon as the files it needs have arrived, whatever happens to the other files: failed, late or in another order, a typesetting error, or one algorithm that cannot be rendered. Start-up always comes to an end, without uncaught errors, and leaves the manuscript as it was served. This holds wherever the static files are deployed and with keys turned off, which leaves only the keyboard out.",
  ["schedules", "fault_sequences", "configurations", "inputs"],
  "for all pages, all failures, delays and arrival orders of the files a page loads, and all deployment paths",
  NOJS + "no test lets a script or library fail to load or arrive late.",
  A(WEBJS + ["rsm/translator.py", "rsm/builder.py"], [("independent start-up steps", "rsm/static/onload.js onload, onrender"), ("third-party loading", "rsm/static/libraries.js")],
    [("which files arrived", "network", "browser")], ["visible elements, reactions to pointer and keys, uncaught errors, requests made"]))

P("W02", "What is collapsed is hidden, and nothing else, after any history",
  "At every moment the page shows exactly what it showed when it opened less what the currently collapsed handrails hold, whichever routes (icon, menu item, keys, Enter in a menu, collapse all) toggled them in whichever order, also for handrails nested in collapsed ones and across window resizes. Every icon and menu text says what a click would do, disabled items do nothing, borders stay as high as their content, and the text of the manuscript never changes.",
  ["histories", "schedules", "inputs"],
  "for all manuscripts and all sequences of toggles by all routes",
  NOJS + "nothing examines the page after a click, let alone after a history of them.",
  A(["rsm/static/handrails.js", "rsm/static/keyboard.js", "rsm/static/icons.js", "rsm/static/rsm.css", "rsm/translator.py"], [("toggling", "rsm/static/handrails.js toggleHandrail, collapseAll"), ("hidden class", "rsm/static/rsm.css .hide")],
    [("collapsed handrails", "what is closed", "class hr-collapsed")], ["visibility of every element, icons, menu texts, text content"]))

P("W03", "Keys always lead somewhere sensible and never get stuck",
  "From any state of the page, j and k move the focus to the next and previous visible stop in document order, wrapping around and skipping what is collapsed; h and l move between siblings, H to the top, z brings the focused element to the middle. The focused element is on the screen once scrolling has settled, a key that has nowhere to go leaves the focus alone, and no sequence of keys, clicks, scrolling, resizing and collapsing causes an error.",
  ["histories", "schedules", "inputs", "configurations"],
  "for all manuscripts, window sizes and histories of keys, clicks, collapses, scrolling and resizing, at any speed",
  NOJS + "keyboard navigation depends on everything that happened to the page before.",
  A(["rsm/static/keyboard.js", "rsm/static/onload.js"], [("key table", "rsm/static/keyboard.js setup"), ("focus order", "rsm/static/keyboard.js focusElement, focusSibling"), ("scrolling", "rsm/static/keyboard.js maybeScrollToMiddle")],
    [("focus", "where the next key starts", "document.activeElement")], ["focused element and its position, uncaught errors"]))

P("W04", "Copying a link tells the truth and yields a link that works",
  "Every use of Copy link puts on the clipboard the page's own address with a fragment that names the element it was used on (the page itself for the title), or puts nothing there. Each use is answered by exactly one notification, of success exactly when the clipboard took the link and of an error otherwise, which stays for five seconds or until dismissed and then disappears, however many overlap. Disabled items do nothing.",
  ["histories", "schedules", "fault_sequences", "inputs"],
  "for all manuscripts, all sequences of copies, dismissals and navigation, and all clipboard behaviours (working, slow, rejecting, throwing, absent)",
  NOJS + "the clipboard and its failures are never exercised.",
  A(["rsm/static/handrails.js", "rsm/translator.py"], [("copying", "rsm/static/handrails.js copyLink"), ("notifications", "rsm/static/handrails.js showToast")],
    [("notifications", "what is on the page and until when", "elements of class toast")], ["clipboard, notifications"]))

P("W05", "The minimaps show where the reader is",
  "The contents' minimap marks the entry last pointed at or focused. The floating minimap is shown exactly while the contents are out of view, and marks the last section that has reached the upper half of the window, or nothing if that section is not in the contents. Every link of a minimap leads to its section, on every page, with or without contents and whatever the labels are.",
  ["histories", "schedules", "inputs", "configurations"],
  "for all manuscripts, window sizes and histories of scrolling, pointing, focusing, following links, collapsing and resizing",
  NOJS + "the minimap's state follows from scroll and pointer events only a browser produces.",
  A(["rsm/static/minimap.js", "rsm/translator.py"], [("pointer and scroll listeners", "rsm/static/minimap.js setup"), ("minimap and its ids", "rsm/translator.py, rsm/transformer.py")],
    [("marker", "gradient stops", "stop-follow-mouse, stop-follow-scroll")], ["gradient offsets, visibility of the floating minimap"]))

P("W06", "Menus do what the pointed-at or active item says, once, and close",
  "A handrail's menu is open exactly from the moment its dots are clicked or the period key is pressed until the pointer leaves it or the key is pressed again. While open it has at most one active item, which the arrow keys move cyclically while the page stays where it is; Enter does exactly what clicking that item would do, once, and a disabled item does nothing. Keys pressed with no menu open change nothing in any menu.",
  ["histories", "schedules", "inputs"],
  "for all manuscripts and all interleavings of pointer and keyboard use over any number of menus",
  NOJS + "menus are driven by two input devices whose interleavings nobody tests.",
  A(["rsm/static/handrails.js", "rsm/static/keyboard.js"], [("opening and closing", "rsm/static/handrails.js setup"), ("menu keys", "rsm/static/keyboard.js toggleMenu, focusMenuItem, executeActiveMenuItem")],
    [("open menus and active items", "per handrail", "style of hr-menu-zone, class active")], ["menus shown, active items, effects"]))

P("W07", "Every reference previews what it leads to",
  "Pointing at a reference, resting a finger on it, or pressing i on it, opens one tooltip showing the text of the thing it leads to, without its handrail, whatever other references, labels and addresses the page has and whatever has been collapsed, hovered or followed before. A reference to something without a label says so, and the page itself never changes. The tooltip closes when the pointer leaves, the finger is lifted, something else or the reference itself is clicked, or the key is pressed again.",
  ["histories", "schedules", "inputs", "fault_sequences"],
  "for all manuscripts, labels and reference targets, and all sequences and speeds of pointing, keys, scrolling and collapsing",
  NOJS + "each tooltip's content depends on the rest of the page.",
  A(["rsm/static/tooltips.js", "rsm/translator.py"], [("content by kind of target", "rsm/static/tooltips.js createTooltips")],
    [("open tooltips", "elements tooltipster added", "document body")], ["tooltips open and their content"]))

P("W08", "A long visit leaves no residue",
  "However long a page is used, repeating the same acts (collapsing and opening again, previews, copying links, menus, keys, scrolling, resizing, pointing at the contents) and letting it come to rest leaves no more elements, event listeners, timers or observed elements behind than the repetition before, and every repetition can do, copy and show the same as the one before it. The page never gets slower, longer or different merely by being used.",
  ["histories", "schedules", "inputs"],
  "for all manuscripts and all repeated histories of use",
  NOJS + "residue only shows after many repetitions of a history.",
  A(["rsm/static/handrails.js", "rsm/static/tooltips.js", "rsm/static/keyboard.js", "rsm/static/minimap.js", "rsm/static/tooltipster.bundle.js"], [("notifications", "rsm/static/handrails.js launchToast"), ("tooltips", "rsm/static/tooltips.js createTooltips"), ("menus", "rsm/static/handrails.js setup, closeMenu")],
    [("what the page is made of", "elements, listeners, timers, observers", "document")], ["counts of each kind at rest, length of the page, links copied"]))

P("W09", "Manuscripts embedded in one page do not get in each other's way",
  "Several manuscripts rendered separately (with distinct labels) and embedded in one page, as RSM's own documentation does, each start up, look and behave exactly as on a page of their own: collapsing, menus, keys on a focused element (where keys are enabled), previews, copied links and notifications act on the manuscript they are used in and on no other. Every example of the documentation works wherever the documentation is deployed, and its edit button hands the editor exactly the source shown.",
  ["histories", "inputs", "configurations", "fault_sequences"],
  "for all sets of manuscripts with distinct labels, all deployments (documentation locally and in production, own pages) and all interleaved histories of use",
  NOJS + "and the documentation's own pages are never built by them, let alone used.",
  A(["docs/source/rsm_directive.py", "docs/source/_static/openlive.js", "rsm/static/onload.js", "rsm/static/handrails.js", "rsm/static/keyboard.js", "rsm/static/tooltips.js"], [("embedding", "docs/source/rsm_directive.py visit_rsm_body_node, add_rsm_static_files"), ("edit buttons", "docs/source/_static/openlive.js")],
    [("each manuscript's state", "as if it were alone", "its wrapper element")], ["each manuscript's elements, states, texts and visibility; tooltips, notifications, focus, copied and visited links"]))

PAGE = SIM if "SIM" in globals() else "deterministic simulation: "
NOTE = " The real scripts run in a simulated browser (event loop, timers, module loader, DOM, focus, layout, clipboard), whose model of the web platform is trusted; MathJax and pseudocode.js are stand-ins."
WEB_CHECKS = {
    "W01": (PAGE + "seeded load failures, delays and arrival orders, each component judged by use", "Seeded search over pages and network faults." + NOTE),
    "W02": (PAGE + "seeded histories of toggles by all routes against a reference model of the page", "Every element's visibility is compared after every act." + NOTE),
    "W03": (PAGE + "seeded histories of keys, clicks, scrolling and collapsing, with timing, against a reference model of focus", "Where the page is scrolled to after key presses faster than smooth scrolling is not judged." + NOTE),
    "W04": (PAGE + "seeded clipboard faults and delays over histories of copies, exactly-once and truthfulness of the answer", "Clipboard failures: rejected, thrown, absent, slow." + NOTE),
    "W05": (PAGE + "seeded histories of scrolling, pointing, resizing and collapsing against a reference model of the minimaps", "Positions come from a deterministic block layout." + NOTE),
    "W06": (PAGE + "seeded interleavings of pointer and keyboard against a reference model of the menus", "Pointer and keys on the same menu at once: any single item may be active." + NOTE),
    "W07": (PAGE + "seeded histories of pointing, keys and timing, tooltip content against a model of the page", "The real tooltipster and jQuery run." + NOTE),
    "W09": (PAGE + "seeded histories of use interleaved over several manuscripts in one page, each compared after every act with the same manuscript alone on its page", "The contents' and floating minimaps are not compared (their ids are per document); Sphinx and docutils are stood in for." + NOTE),
    "W08": (PAGE + "seeded histories of use repeated six to nine times with each undone, counting what is left at rest after each", "Residue that is not an element, listener (DOM or jQuery), timer or observation is only seen through its effects." + NOTE),
}
