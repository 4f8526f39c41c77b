import tla2sany.semantic.ExprOrOpArgNode;
import tlc2.overrides.Evaluation;
import tlc2.overrides.ITLCOverrides;
import tlc2.tool.EvalControl;
import tlc2.tool.TLCState;
import tlc2.tool.coverage.CostModel;
import tlc2.tool.impl.Tool;
import tlc2.util.Context;
import tlc2.value.impl.*;

/** Total(e, d) of Real64.tla: e, or d where e has no value (an outcome of a shape no relation can read). */
public class Total implements ITLCOverrides {
    public Class[] get() { return new Class[] { Total.class }; }

    @Evaluation(definition = "Total", module = "Real64", silent = true)
    public static Value total(final Tool tool, final ExprOrOpArgNode[] args, final Context c, final TLCState s0,
                              final TLCState s1, final int control, final CostModel cm) {
        try {
            Value v = (Value) tool.eval(args[0], c, s0, s1, control, cm);
            v.deepNormalize();
            return v;
        } catch (RuntimeException | StackOverflowError e) {
            if (System.getProperty("verif.debug") != null) System.err.println(e);
            return (Value) tool.eval(args[1], c, s0, s1, control, cm);
        }
    }
}
