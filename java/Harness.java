import com.sun.jna.Library;
import com.sun.jna.Native;
import java.io.*;
import java.util.*;
import java.util.concurrent.*;
import org.puimula.libvoikko.*;
import org.puimula.libvoikko.Dictionary;

/** Executes operations on the Java binding: one line in, one line of JSON out. Strings are sent as hexadecimal UTF-16. */
public class Harness {
	public interface Shim extends Library {
		int shimOwned();
		int shimHandles();
		String shimKinds();
		String shimProblem();
		void shimSlow(int ns);
	}

	static final Map<String, Voikko> objects = new HashMap<>();

	static String dec(String h) {
		if (h.equals("~")) return null;
		StringBuilder b = new StringBuilder();
		for (int i = 1; i + 4 <= h.length(); i += 4) b.append((char) Integer.parseInt(h.substring(i, i + 4), 16));
		return b.toString();
	}
	static String json(Object o) {
		if (o == null) return "null";
		if (o instanceof Boolean || o instanceof Integer) return o.toString();
		if (o instanceof List) {
			StringBuilder b = new StringBuilder("[");
			for (Object x : (List<?>) o) { if (b.length() > 1) b.append(","); b.append(json(x)); }
			return b.append("]").toString();
		}
		if (o instanceof Map) {
			StringBuilder b = new StringBuilder("{");
			for (Map.Entry<?, ?> e : ((Map<?, ?>) o).entrySet()) { if (b.length() > 1) b.append(","); b.append(json(e.getKey())).append(":").append(json(e.getValue())); }
			return b.append("}").toString();
		}
		StringBuilder b = new StringBuilder("\"");
		for (char c : o.toString().toCharArray()) {
			if (c >= 32 && c < 127 && c != '"' && c != '\\') b.append(c);
			else b.append(String.format("\\u%04x", (int) c));
		}
		return b.append("\"").toString();
	}
	static List<Object> list(Object... x) { return Arrays.asList(x); }

	/** the answer of one operation; f[0] is the operation, the rest are its arguments */
	static Object run(Voikko v, String[] f) throws Exception {
		switch (f[0]) {
			case "spell": return v.spell(dec(f[1]));
			case "suggest": return v.suggest(dec(f[1]));
			case "analyze": return v.analyze(dec(f[1]));
			case "pattern": return v.getHyphenationPattern(dec(f[1]));
			case "hyphenate": { String sep = dec(f[2]); boolean ctx = f[3].equals("1"); return sep.equals("-") && ctx ? v.hyphenate(dec(f[1])) : v.hyphenate(dec(f[1]), sep, ctx); }
			case "tokens": { List<Object> r = new ArrayList<>(); for (Token t : v.tokens(dec(f[1]))) r.add(list(t.getText(), t.getType().name(), t.getType().getId(), t.getStartOffset(), t.getEndOffset())); return r; }
			case "sentences": { List<Object> r = new ArrayList<>(); for (Sentence s : v.sentences(dec(f[1]))) r.add(list(s.getText(), s.getNextStartType().name())); return r; }
			case "grammar": { List<Object> r = new ArrayList<>(); for (GrammarError e : v.grammarErrors(dec(f[1]), dec(f[2]))) r.add(list(e.getErrorCode(), e.getStartPos(), e.getErrorLen(), e.getShortDescription(), e.getSuggestions())); return r; }
			case "attributes": return v.attributeValues(dec(f[1]));
			case "bool": Voikko.class.getMethod("set" + f[1], boolean.class).invoke(v, f[2].equals("1")); return true;
			case "int": Voikko.class.getMethod("set" + f[1], int.class).invoke(v, Integer.parseInt(f[2])); return true;
			case "strategy": v.setSuggestionStrategy(SuggestionStrategy.valueOf(f[1])); return true;
			case "terminate": v.terminate(); return true;
		}
		throw new IllegalArgumentException(f[0]);
	}
	/** answer, or the name of the exception */
	static Object attempt(Voikko v, String[] f) {
		try {
			return run(v, f);
		} catch (Throwable t) {
			if (t instanceof java.lang.reflect.InvocationTargetException) t = t.getCause();
			return Collections.singletonMap("exception", t.getClass().getSimpleName());
		}
	}

	public static void main(String[] args) throws Exception {
		Voikko.addLibraryPath(System.getenv("VERIF_SHIM"));
		Shim shim = (Shim) Native.load(System.getenv("VERIF_SHIM") + "/libvoikko.so.1", Shim.class);
		BufferedReader in = new BufferedReader(new InputStreamReader(System.in, "US-ASCII"));
		PrintStream out = new PrintStream(new FileOutputStream(FileDescriptor.out), false, "US-ASCII");
		String line;
		while ((line = in.readLine()) != null) {
			String[] f = line.split(" ");
			Object r;
			if (f[0].equals("open")) {
				try {
					objects.put(f[1], f[3].equals("~") ? new Voikko(dec(f[2])) : new Voikko(dec(f[2]), dec(f[3])));
					r = true;
				} catch (VoikkoException e) {
					r = Collections.singletonMap("exception", "VoikkoException: " + e.getMessage());
				}
			} else if (f[0].equals("forget")) {
				objects.remove(f[1]);
				r = true;
			} else if (f[0].equals("finalized")) {
				// objects nobody refers to any more give their handles back
				int want = Integer.parseInt(f[1]);
				for (int i = 0; i < 200 && shim.shimHandles() != want; i++) { System.gc(); System.runFinalization(); Thread.sleep(20); }
				r = shim.shimHandles();
			} else if (f[0].equals("dicts")) {
				List<Object> l = new ArrayList<>();
				for (Dictionary d : f[1].equals("~") ? Voikko.listDicts() : Voikko.listDicts(dec(f[1]))) l.add(list(d.getLanguage(), d.getScript(), d.getVariant(), d.getDescription()));
				r = l;
			} else if (f[0].equals("order")) {
				Dictionary a = new Dictionary(dec(f[1]), dec(f[2]), dec(f[3]), dec(f[4])), b = new Dictionary(dec(f[5]), dec(f[6]), dec(f[7]), dec(f[8]));
				r = list(Integer.signum(a.compareTo(b)), a.equals(b), a.hashCode() == b.hashCode());
			} else if (f[0].equals("account")) {
				r = list(shim.shimProblem(), shim.shimOwned(), shim.shimHandles(), shim.shimKinds());
			} else if (f[0].equals("threads")) {
				// threads OBJECT REPEAT N: each of the N operations on the next lines in a thread of its own, all on the same object, repeated; gives the distinct answers of each
				final Voikko v = objects.get(f[1]);
				final int repeat = Integer.parseInt(f[2]);
				final int n = Integer.parseInt(f[3]);
				List<String[]> ops = new ArrayList<>();
				for (int i = 0; i < n; i++) ops.add(in.readLine().split(" "));
				shim.shimSlow(20000);
				ExecutorService ex = Executors.newFixedThreadPool(n);
				final CyclicBarrier start = new CyclicBarrier(n);
				List<Future<Object>> fs = new ArrayList<>();
				for (final String[] op : ops) fs.add(ex.submit(new Callable<Object>() {
					public Object call() throws Exception {
						start.await();
						Map<String, Object> distinct = new LinkedHashMap<>();
						for (int k = 0; k < repeat; k++) { Object a = attempt(v, op); distinct.put(json(a), a); }
						return new ArrayList<>(distinct.values());
					}
				}));
				List<Object> l = new ArrayList<>();
				for (Future<Object> x : fs) l.add(x.get());
				ex.shutdown();
				shim.shimSlow(0);
				r = l;
			} else {
				r = attempt(objects.get(f[1]), remove(f, 1));
			}
			out.println(json(r));
			out.flush();
		}
		System.exit(0);
	}
	static String[] remove(String[] f, int k) {
		List<String> l = new ArrayList<>(Arrays.asList(f));
		l.remove(k);
		return l.toArray(new String[0]);
	}
}
