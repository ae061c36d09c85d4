------------------------------- MODULE Output -------------------------------
(* Datasources as commands leave them.  A datasource has a format, traits   *)
(* decided by the options it was created with, and layers; a layer has a    *)
(* name, attributes, features (a digest) and traits decided by the options  *)
(* it was created with.  Whatever has not been asked for is as OGR does it. *)
EXTENDS Naturals, Sequences, FiniteSets

LayerNames(layers) == {layers[i].name : i \in DOMAIN layers}
Named(layers, n) == layers[CHOOSE i \in DOMAIN layers : layers[i].name = n]
Requested(opts, t) == \E i \in DOMAIN opts : opts[i][1] = t
\* the last one counts
ValueOf(opts, t) == opts[CHOOSE i \in DOMAIN opts : opts[i][1] = t /\ \A j \in DOMAIN opts : opts[j][1] = t => j <= i][2]
\* traits: sequence of <<trait, value>>
With(default, opts) == [i \in DOMAIN default |-> IF Requested(opts, default[i][1]) THEN <<default[i][1], ValueOf(opts, default[i][1])>> ELSE default[i]]
Renamed(attrs, from, to) == [i \in DOMAIN attrs |-> IF attrs[i] = from THEN to ELSE attrs[i]]

\* ds0: the datasource before (layers = <<>> and new = TRUE if there was none), ds1: after
\* wants: sequence of [name, default (traits), attrs, digest] of the layers the command was asked for
OutputFailing(ds0, ds1, fmt, ddefault, dsco, lco, from, to, wants) ==
  LET names == {wants[i].name : i \in DOMAIN wants}
      bad == {<<"requested_format", ds1.fmt = fmt>>,
              <<"datasource_options", ds1.traits = (IF ds0.new THEN With(ddefault, dsco) ELSE ds0.traits)>>,
              <<"requested_layer_names", LayerNames(ds1.layers) = LayerNames(ds0.layers) \cup names>>,
              <<"other_layers_unchanged", \A n \in LayerNames(ds0.layers) \ names : n \in LayerNames(ds1.layers) => Named(ds1.layers, n) = Named(ds0.layers, n)>>,
              <<"layer_options", \A i \in DOMAIN wants : wants[i].name \in LayerNames(ds1.layers) =>
                                   Named(ds1.layers, wants[i].name).traits = With(wants[i].default, lco)>>,
              <<"requested_attribute_name", \A i \in DOMAIN wants : wants[i].name \in LayerNames(ds1.layers) =>
                                   Named(ds1.layers, wants[i].name).attrs = Renamed(wants[i].attrs, from, to)>>,
              <<"same_features", \A i \in DOMAIN wants : wants[i].name \in LayerNames(ds1.layers) =>
                                   Named(ds1.layers, wants[i].name).digest = wants[i].digest>>}
  IN {"C23." \o x[1] : x \in {y \in bad : ~y[2]}}
=============================================================================
