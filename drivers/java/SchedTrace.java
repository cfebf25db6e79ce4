import org.python.core.*;
import java.util.BitSet;

/** Counts the lines executed in the traced files and calls back at chosen ones (without Jython's global trace lock). */
public class SchedTrace extends TraceFunction {
    public static int n = 0;
    public static BitSet at = new BitSet();
    public static String[] files = new String[0];
    public static PyObject callback = null;
    public static int limit = 1000000;

    public static void install() { Py.getThreadState().tracefunc = new SchedTrace(); }
    public static void remove() { Py.getThreadState().tracefunc = null; }
    public static void reset(int[] points) {
        n = 0;
        at = new BitSet();
        for (int p : points) at.set(p);
    }

    private static boolean hit(PyFrame frame) {
        String f = frame.f_code instanceof PyTableCode ? ((PyTableCode) frame.f_code).co_filename : "";
        for (String x : files) if (f.endsWith(x)) return true;
        return false;
    }
    public TraceFunction traceCall(PyFrame frame) { return hit(frame) ? this : null; }
    public TraceFunction traceReturn(PyFrame frame, PyObject ret) { return this; }
    public TraceFunction traceException(PyFrame frame, PyException exc) { return this; }
    public TraceFunction traceLine(PyFrame frame, int line) {
        n++;
        if (at.get(n) || n > limit) {
            ThreadState ts = Py.getThreadState();
            TraceFunction t = ts.tracefunc;
            ts.tracefunc = null;
            try { callback.__call__(); } finally { ts.tracefunc = t; }
        }
        return this;
    }
}
